#!/usr/bin/env python3
"""plant.py [ids...]  makes /verif/seeded/<id>/ from bugs.py and confirms each in a scratch copy of /repo:
it compiles, the stable tests pass, the demonstration passes without it and fails with it.
   --check  also runs the property's check against the copy"""
import json, os, shutil, subprocess, sys, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bugs
SEED = os.path.join(HERE, '..', 'seeded')
STABLE = None
DEMO_SH = '''#!/bin/bash
# builds the demonstration against the library in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O0 -g -w -include algorithm -fsanitize=address -D_GLIBCXX_ASSERTIONS=1 -Iinclude "$here/demo.cpp" \\
  -L_build -lINNC -Wl,-rpath,"$PWD/_build" -o "$tmp/demo" || exit 98
ASAN_OPTIONS=detect_leaks=0 timeout 200 "$tmp/demo"
'''
DEMO_HEAD = '''#include "INNC/INNC.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
using namespace INNC;
static int bad = 0;
#define SAME(x, y)                                                             \\
  do {                                                                         \\
    std::string a_ = (x), b_ = (y);                                            \\
    if (a_ != b_) {                                                            \\
      std::cerr << #x << ": " << a_ << ", not " << b_ << "\\n";                 \\
      bad = 1;                                                                 \\
    }                                                                          \\
  } while (0)
#define HOLDS(c)                                                               \\
  do {                                                                         \\
    if (!(c)) {                                                                \\
      std::cerr << "does not hold: " << #c << "\\n";                            \\
      bad = 1;                                                                 \\
    }                                                                          \\
  } while (0)
static bool throws(std::function<void()> f) {
  try {
    f();
  } catch (...) {
    return true;
  }
  return false;
}
template <class T> static Tensor mk(std::vector<T> v, SizeVec z) {
  return Tensor::from_blob(v.data(), z, to_ts<T>);
}
static Tensor leaf(std::vector<double> v, SizeVec z) {
  Tensor t = mk<double>(v, z);
  t.requires_grad(true);
  return t;
}
static Tensor leaff(std::vector<float> v, SizeVec z) {
  Tensor t = mk<float>(v, z);
  t.requires_grad(true);
  return t;
}
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def own_lines(repo):
    """the changed lines that are not of the original repository"""
    import re
    base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], repo).stdout.strip()
    bad = []
    orig = 0
    f = None
    for l in sh(['git', 'diff', '-U0'], repo).stdout.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m and (m.group(2) or '1') != '0':
            n, k = int(m.group(1)), int(m.group(2) or '1')
            for x in sh(['git', 'blame', '-s', '-L%d,%d' % (n, n + k - 1), 'HEAD', '--', f], repo).stdout.splitlines():
                if base.startswith(x.split()[0].lstrip('^')):
                    orig += 1
                else:
                    bad.append(x)
    return bad or ([] if orig else ['only adds lines'])


def one(b, do_check):
    id = b['id']
    w = '/tmp/plant/' + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        repo = w + '/repo'
        sh(['git', 'clone', '-q', '/repo', repo], '/')
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, 'EDIT %d matches in %s of %r' % (s.count(old), f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        mine = own_lines(repo)
        d = os.path.join(SEED, id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(DEMO_HEAD + 'int main() {\n' + b['demo'].strip('\n') + '\n  return bad;\n}\n')
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        # build the changed copy
        cm = w + '/cm'
        shutil.copytree('/opt/vp/innc', cm)
        p = cm + '/CMakeLists.txt'
        s = open(p).read()
        open(p, 'w').write(s.replace('set(REPO /repo)', 'set(REPO %s)' % repo))
        r = sh('CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja >/dev/null && ninja -j4 -C %s/_build' % (cm, repo, repo), w, shell=True)
        if r.returncode:
            return id, 'BUILD FAILED ' + r.stdout[-800:]
        r = sh(['ctest', '--test-dir', repo + '/_build', '-j4', '--timeout', '300'], repo)
        if '100% tests passed' not in r.stdout:
            return id, 'TESTS FAIL ' + r.stdout[-600:]
        r1 = sh(['bash', d + '/demo.sh'], repo)
        r0 = sh(['bash', d + '/demo.sh'], '/repo')
        if r0.returncode != 0:
            return id, 'DEMO FAILS ON THE UNCHANGED TREE ' + r0.stdout[-600:]
        if r1.returncode in (0, 98, 99):
            return id, 'DEMO DOES NOT FAIL (%d) %s' % (r1.returncode, r1.stdout[-300:])
        res = 'ok'
        if mine:
            res += ' OWN LINES ' + ' | '.join(mine)[:200]
        if do_check:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_JOBS='4', VERIF_TAG=id)
            r = sh(['python3', os.path.join(HERE, '..', 'check.py'), b['prop']], HERE + '/..', env=env)
            res += ' CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + b['prop'] in r.stdout else ' MISSED rc=%d' % r.returncode
            for l in r.stdout.splitlines():
                if 'mismatch in' in l or 'ERROR' in l:
                    res += '\n      ' + l[:200]
        return id, res
    except Exception as e:
        return id, 'EXCEPTION %r' % e
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    todo = [b for b in bugs.BUGS if not args or b['id'] in args or b['prop'] in args]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '3'))) as ex:
        for id, res in ex.map(lambda b: one(b, '--check' in sys.argv), todo):
            print(id, res, flush=True)
            if not res.startswith('ok') or 'OWN LINES' in res:        # does not count
                shutil.rmtree(os.path.join(SEED, id), ignore_errors=True)


main()
