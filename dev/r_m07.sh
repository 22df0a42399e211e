. /tmp/w/m.sh; P=M07; T=4
F=esl/interaction/header.hpp; m r-assign <<'E'
s=s.replace('''        , sent(sent)
        , received(received)
        {
''','''        {
            this->sent = sent;
            this->received = received;
''')
E
m r-names <<'E'
a=s.index('header( message_code type'); b=s.index('virtual ~header'); q=s[a:b]
import re
q=q.replace('message_code type  ','message_code type_ ').replace('sender   ','sender_  ').replace('recipient  ','recipient_ ').replace('sent  ','sent_ ').replace('received =','received_ =').replace('type(type)','type(type_)').replace('std::move(sender)','std::move(sender_)').replace('std::move(recipient)','recipient_').replace('sent(sent)','sent(sent_)').replace('received(received)','received(received_)')
s=s[:a]+q+s[b:]
E
F=esl/interaction/transfer.hpp; m r-rename <<'E'
s=s.replace('transferor(transferor)','transferor(from_)').replace('''&transferor =''','''&from_ =''').replace('transferee(transferee)','transferee(to_)').replace('&transferee =','&to_ =')
E
m r-times <<'E'
s=s.replace('            sender,\n            recipient)','            sender,\n            recipient, simulation::time_point(), simulation::time_point())')
E
F=esl/economics/finance/dividend.hpp; m r-body <<'E'
s=s.replace("        , shares_on_record(std::move(shares_on_record))\n        {","        {\n            this->shares_on_record = std::move(shares_on_record);")
E
m r-movecopy <<'E'
s=s.replace("            std::move(sender),\n            std::move(recipient),","            sender,\n            recipient,")
E
F=esl/interaction/message.hpp; m r-type <<'E'
s=s.replace('header( type_code_\n','header( type_code<type_code_>::code\n')
E
F=esl/economics/markets/market_data_request_message.hpp; m r-vec <<'E'
s=s.replace('instruments(instruments)','instruments(instruments.begin(), instruments.end())')
E
F=esl/economics/markets/walras/quote_message.hpp; m r-alias <<'E'
s=s.replace('struct quote_message\n','typedef int unused_;\n    struct quote_message\n',1)
E
