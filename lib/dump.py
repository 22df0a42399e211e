"""Parses the library's current sources into one resolved program (see tool/esldump.cpp)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess
from prog import Program, Anchor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(HERE, 'build', 'esldump')
LLVM = '/usr/lib/llvm-18'
# headers that do not parse on their own in the library as it is (stated in DESIGN.md)
SKIP_HPP = {'esl/data/format/openbook.hpp', 'esl/economics/physical_money.hpp', 'esl/economics/commodity_money.hpp'}
FIRST = ['esl/economics/markets/centralized_exchange.hpp']
# diagnostics of the library as it is: parts the offline build never compiles
KNOWN = [r'communicator\.hpp.*cannot bind to bit-field', r"cancel_order_message\.hpp.*undeclared identifier 'basic_book'", r"variable\.hpp.*no viable conversion",
         r'world\.(hpp|cpp).*entity<', r"access\.hpp.*no member named 'serialize' in 'boost::container::flat_multimap"]


def flags(repo):
    return ['-std=c++17', '-include', 'cstdint', '-isystem', repo, '-I' + repo, '-I' + os.path.join(HERE, 'stub'), '-DWITH_PYTHON', '-DESL_RELEASE=1', '-isystem', '/usr/include/python3.12', '-w', '-ferror-limit=0', '-resource-dir', LLVM + '/lib/clang/18']


def build_tool():
    src = os.path.join(HERE, 'tool', 'esldump.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    cxx = subprocess.run([LLVM + '/bin/llvm-config', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-std=c++17', '-O1'] + [x for x in cxx if not x.startswith('-std=')] + ['-fno-rtti', src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18'], capture_output=True, text=True)
    if r.returncode:
        raise Anchor('the analyser does not build: ' + r.stderr[:1000])
    os.replace(tmp, TOOL)


def sources(repo):
    hpp = sorted(os.path.relpath(p, repo) for p in glob.glob(repo + '/esl/**/*.hpp', recursive=True))
    cpp = sorted(os.path.relpath(p, repo) for p in glob.glob(repo + '/esl/**/*.cpp', recursive=True))
    hpp = [h for h in hpp if h not in SKIP_HPP and 'python_module' not in h and 'python' not in os.path.basename(h)]
    cpp = [c for c in cpp if 'python' not in os.path.basename(c)]
    return FIRST + [h for h in hpp if h not in FIRST], cpp


def dump(tu, out, repo):
    r = subprocess.run([TOOL, '-root=%s/esl/' % repo, tu, '--'] + flags(repo), stdout=open(out, 'w'), stderr=subprocess.PIPE, text=True)
    if r.returncode not in (0, 1, 3):
        raise Anchor('the analyser failed on %s: %s' % (tu, r.stderr[-1500:]))
    return [l for l in r.stderr.split('\n') if ' error: ' in l]


def load(repo, work, extra=()):
    """the program, with what is instantiated by lib/uses.hpp and the extra headers of lib/"""
    uses = ['uses.hpp'] + list(extra)
    build_tool()
    hpp, cpp = sources(repo)
    cache = os.environ.get('VERIF_CACHE')
    if cache:
        h = hashlib.sha256(repo.encode())
        for p in hpp + cpp:
            h.update(p.encode())
            h.update(open(os.path.join(repo, p), 'rb').read())
        for p in [TOOL] + [os.path.join(HERE, 'lib', u) for u in uses]:
            h.update(open(p, 'rb').read())
        cf_ = os.path.join(cache, h.hexdigest()[:20] + '.json')
        if os.path.exists(cf_):
            return Program(cf_), {'cached': True}
    tu = os.path.join(work, 'unity.cpp')
    with open(tu, 'w') as f:
        for p in hpp:
            f.write('#include <%s>\n' % p)
        for p in cpp:
            f.write('#include "%s/%s"\n' % (repo, p))
        for u in uses:
            f.write('#include "%s/lib/%s"\n' % (HERE, u))
    out = os.path.join(work, 'unity.json')
    errors = dump(tu, out, repo)
    new = [e for e in errors if not any(re.search(k, e) for k in KNOWN)]
    info = {'translation_units': 1, 'headers': len(hpp), 'sources': len(cpp), 'known_diagnostics': len(errors) - len(new)}
    if new:
        # two sources that cannot share a translation unit: analyse each on its own
        info['separate_units_because'] = new[:5]
        def one(k):
            p = cpp[k]
            o = os.path.join(work, 'u%d.json' % k)
            t = os.path.join(work, 'u%d.cpp' % k)
            with open(t, 'w') as f:
                f.write('#include <%s>\n#include "%s/%s"\n' % (FIRST[0], repo, p))
            return o, dump(t, o, repo)
        t = os.path.join(work, 'headers.cpp')
        with open(t, 'w') as f:
            for p in hpp:
                f.write('#include <%s>\n' % p)
            for u in uses:
                f.write('#include "%s/lib/%s"\n' % (HERE, u))
        ho = os.path.join(work, 'headers.json')
        with cf.ThreadPoolExecutor(8) as ex:
            hd = ex.submit(dump, t, ho, repo)
            parts = list(ex.map(one, range(len(cpp))))
            errs = hd.result()
        seen = set()
        with open(out, 'w') as f:
            for o in [ho] + [o for o, _ in parts]:
                for line in open(o):
                    j = json.loads(line)
                    key = (j['k'], j.get('fid') or j.get('ty') or j.get('qn'), j.get('file'), j.get('line'), j.get('inst'))
                    if key in seen:
                        continue
                    seen.add(key)
                    f.write(line)
        bad = [e for e in errs + sum((e for _, e in parts), []) if not any(re.search(k, e) for k in KNOWN)]
        info['diagnostics'] = bad[:10]
        info['translation_units'] = 1 + len(cpp)
    P = Program(out)
    info['functions'] = len(P.functions)
    info['classes'] = len(P.records)
    if len(P.functions) < 900:
        raise Anchor('only %d functions were parsed' % len(P.functions))
    if cache:
        os.makedirs(cache, exist_ok=True)
        os.replace(out, cf_)
    return P, info


if __name__ == '__main__':
    import sys, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as d:
        P, i = load(sys.argv[1] if len(sys.argv) > 1 else '/repo', d)
    print(i)
