#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes and validates planted bugs under /verif/seeded (a tool for working
on the checks, no check uses it). SPEC.py calls bug(...). Everything runs on a scratch copy of /repo,
bound over /repo in a mount namespace of its own, so the real tree is never touched."""
import sys, os, subprocess, json, shutil, re, concurrent.futures as cf

BASE = '170cd9b'
VERIF = '/verif'
bugs = []

def bug(id, prop, edits, needs, breaks, demo, kind='main', pkg=None, also=()):
    """edits: [(file, old, new)]; demo: Go source (kind main: package main of a program in zz_demo, or
    below pkg; kind test: a test file in package pkg); or kind sh: the text of a shell demo"""
    bugs.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind, pkg=pkg, also=list(also)))

HEAD = '''#!/bin/bash
# exit 0: the property held for this input; nonzero: it did not
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
'''
MAIN = HEAD + '''mkdir "$tmp/work"
printf '{"Replace":{"%s/@DIR@/main.go":"%s/demo.go"}}' "$repo" "$here" >"$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./@DIR@ || exit 4
cd "$tmp/work" && timeout 120 "$tmp/demo" 2>"$tmp/err"
rc=$?
[ $rc -eq 0 ] || tail -5 "$tmp/err"
exit $rc
'''
TEST = HEAD + '''cp "$here/demo.go" "$tmp/zz_demo_test.go"
printf '{"Replace":{"%s/@DIR@/zz_demo_test.go":"%s/zz_demo_test.go"}}' "$repo" "$tmp" >"$tmp/overlay.json"
mkdir "$tmp/work"
go test -c -vet=off -overlay "$tmp/overlay.json" -o "$tmp/demo" ./@DIR@ || exit 4
cd "$tmp/work" && timeout 120 "$tmp/demo" -test.run 'TestZZDemo' -test.count=1
'''
HELP = '''
func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
func must(err error) { if err != nil { fail("unexpected error: %v", err) } }
func put(path string, data []byte) { os.MkdirAll(filepath.Dir(path), 0755); must(os.WriteFile(path, data, 0644)) }
func eq(what string, got, want interface{}) { if !reflect.DeepEqual(got, want) { fail("%s: got %#v, want %#v", what, got, want) } }
func wd() string { d, err := os.Getwd(); must(err); return d }
func home(data string) *bbs.DB { db, err := bbs.Open("pttbbs", data); must(err); return db }
'''
IMPORTS = '''import (
"bytes"; "encoding/binary"; "errors"; "fmt"; "io"; "os"; "os/exec"; "os/signal"; "path/filepath"; "reflect"; "sort"; "strings"; "strconv"; "sync"; "time"; "syscall"; "runtime"; "unsafe"
"github.com/Ptt-official-app/go-bbs"
"github.com/Ptt-official-app/go-bbs/pttbbs"
"github.com/Ptt-official-app/go-bbs/cache"
"github.com/Ptt-official-app/go-bbs/crypt"
formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
)
var _, _, _, _, _, _, _ = bytes.Equal, binary.LittleEndian, errors.Is, io.EOF, exec.Command, sort.Strings, strings.Split
var _, _, _, _, _, _, _, _ = strconv.Itoa, sync.NewCond, time.Now, syscall.Getpid, runtime.GC, cache.NewCache, crypt.Fcrypt, formosabbs.OpenFormosaBBSFileHeaderFile
var _ = pttbbs.NewBoardHeader
var _ = signal.Ignore
var _ unsafe.Pointer
var _ = bbs.Big5ToUtf8
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def inside(repo, script, timeout=1200):
    """runs a script with repo bound over /repo"""
    return sh(['unshare', '-Urm', 'bash', '-c', f'mount --bind {repo} /repo && cd /repo && {script}'], timeout=timeout)

def write_demo(b, d):
    if b['kind'] == 'sh':
        open(d + '/demo.sh', 'w').write(HEAD + b['demo'])
    else:
        race = b['kind'].startswith('race')
        b['kind'] = b['kind'].removeprefix('race') # 'racemain', 'racetest'
        dirn = (b['pkg'] + '/zz_demo' if b['pkg'] else 'zz_demo') if b['kind'] == 'main' else (b['pkg'] or '.')
        src = b['demo']
        if b['kind'] == 'main':
            if 'func main' not in src:
                src = 'func main() {\n' + src + '\n}\n'
            pre = ''
            imp = re.findall(r'^import ".*"\n', src, re.M)
            src = re.sub(r'^import ".*"\n', '', src, flags=re.M)
            src = 'package main\n' + ''.join(imp) + IMPORTS + HELP + src
            open(d + '/demo.sh', 'w').write(MAIN.replace('@DIR@', dirn))
        else:
            open(d + '/demo.sh', 'w').write(TEST.replace('@DIR@', dirn))
        open(d + '/demo.go', 'w').write(src)
        r = sh(['gofmt', '-w', d + '/demo.go'])
        if r.returncode: print(b['id'], 'gofmt', r.stdout)
        if race:
            t = open(d + '/demo.sh').read().replace('go build', 'go build -race').replace('go test -c', 'go test -race -c')
            open(d + '/demo.sh', 'w').write(t.replace('trap ', 'export GORACE="halt_on_error=1 exitcode=1"\ntrap ', 1))
    os.chmod(d + '/demo.sh', 0o755)

def validate(b, runchecks=True):
    out = []
    scratch = f'/tmp/plant/{b["id"]}'
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    repo = scratch + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', repo])
    try:
        for f, old, new in b['edits']:
            s = open(f'{repo}/{f}').read()
            if s.count(old) != 1:
                return [f'EDIT: {f}: {s.count(old)} times: {old!r}'], False
            open(f'{repo}/{f}', 'w').write(s.replace(old, new))
        sh(['gofmt', '-l'] + [f'{repo}/{f}' for f, _, _ in b['edits']])
        patch = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
        # removed lines must be original ones
        orig = mine = 0
        cur = None; ln = 0
        for l in patch.decode('utf8', 'replace').split('\n'):
            if l.startswith('--- a/'): cur = l[6:]; continue
            m = re.match(r'@@ -(\d+)', l)
            if m: ln = int(m.group(1)); continue
            if cur is None or l.startswith('+'): continue
            if l.startswith('-'):
                bl = sh(['git', '-C', repo, 'blame', '-s', '-l', '-L', f'{ln},{ln}', 'HEAD', '--', cur]).stdout
                h = bl.lstrip('^')[:7]
                if h == BASE: orig += 1
                else: mine += 1
            ln += 1
        if mine: out.append(f'WARN: {mine} removed lines are of my own commits')
        if not orig: out.append('WARN: no original line removed')
        d = f'{VERIF}/seeded/{b["id"]}'
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d): os.remove(d + '/' + f)
        open(d + '/patch.diff', 'wb').write(patch)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        write_demo(b, d)
        dd = scratch + '/demo'
        shutil.copytree(d, dd)
        ok = True
        r = inside(repo, 'go build ./... && bash /opt/vp/build.sh')
        if r.returncode: out.append('BUILD: ' + r.stdout[-500:]); return out, False
        r = inside(repo, f'bash /opt/vp/test.sh {scratch}/t.json')
        t = json.load(open(scratch + '/t.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        lost = [x for x in stable if x not in t['passed']]
        if lost: out.append('TESTS FAIL: ' + ' '.join(lost)); ok = False
        r = inside(repo, f'bash {dd}/demo.sh', 300)
        if r.returncode == 0 or r.returncode > 2: out.append(f'DEMO with patch rc={r.returncode}: {r.stdout[-300:]}'); ok = False
        else: out.append('demo says: ' + r.stdout.strip().split('\n')[-1][:160])
        r = sh(['bash', dd + '/demo.sh'], cwd='/repo', timeout=300)
        if r.returncode: out.append(f'DEMO without patch rc={r.returncode}: {r.stdout[-300:]}'); ok = False
        if ok and runchecks:
            for c in [b['prop']] + b['also']:
                r = inside(repo, f'VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE={scratch}/ev bash /verif/check.sh {c}')
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                res = 'caught' if r.returncode == 1 and any(f'property={c} ' in l for l in v) else f'MISSED rc={r.returncode}' 
                out.append(f'{c}: {res}')
                if r.returncode not in (0, 1): out.append(r.stdout[-600:])
        return out, ok
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    ids = sys.argv[2:]
    todo = [b for b in bugs if not ids or b['id'] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        futs = {ex.submit(validate, b): b for b in todo}
        for f in cf.as_completed(futs):
            b = futs[f]
            try: o, ok = f.result()
            except Exception as e: o, ok = [repr(e)], False
            print(('ok  ' if ok else 'BAD ') + b['id'], b['prop'])
            for l in o: print('     ', l)
            sys.stdout.flush()
            if not ok and not os.environ.get('KEEP'): shutil.rmtree(f'{VERIF}/seeded/{b["id"]}', ignore_errors=True)
