P='I01'; F='esl/simulation/entity.hpp'
def edit(s): return s
NEEDS=''
BREAKS=''
DEMO=''
