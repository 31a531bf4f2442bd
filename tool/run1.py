import sys, os, subprocess
sys.path.insert(0, '/verif/tool')
import transpile as T
def gen(id, out):
    sp = T.Spec('/verif/specs/%s.spec' % id)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cpp = out + '.driver.cpp'
    T.REPO = os.environ.get('CXX_REPO', '/repo')
    open(cpp, 'w').write(sp.driver.replace('/repo/', T.REPO + '/'))
    tu = T.TU(T.dump_ast(cpp, sp.filters))
    g = T.Gen(sp, tu)
    open(out, 'w').write(g.generate(open('/verif/tool/cxx.rs').read()))
    return g
if __name__ == '__main__':
    id = sys.argv[1]; out = '/tmp/t/%s.rs' % id
    g = gen(id, out)
    print([i['fn'] for i in g.info], g.inlined)
    sys.exit(subprocess.call(['verus', out, '-A','nonstandard_style','--triggers-mode', 'silent', '--crate-type', 'lib', '--rlimit', '30', *sys.argv[2:]]))
