#!/usr/bin/env python3
"""Generates proto sources and build/<variant>/build.ninja for iamf-tools + the
harnesses. Usage: gen_ninja.py <variant>.

Every non-test .cc under /repo/iamf is compiled from /repo's working tree; the
only things replaced are third-party libraries that the sandbox lacks (compat/).
"""
import hashlib, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
R = os.path.join(V, 'build', 'src')  # mirror of REPO/iamf, see below
variant = sys.argv[1]
FLAGS = {
    'plain': os.environ.get('VERIF_OPT', '-O1') + ' -ftrivial-auto-var-init=pattern',
    'tsan': '-O1 -ftrivial-auto-var-init=pattern -fsanitize=thread -fno-omit-frame-pointer',
    'asan': '-O1 -ftrivial-auto-var-init=pattern -fsanitize=address,undefined -fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
}[variant]
B = os.path.join(V, 'build', variant)
G = os.path.join(V, 'build', 'gen')
os.makedirs(B, exist_ok=True); os.makedirs(G, exist_ok=True)

def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == data: return False
    except OSError: pass
    open(path, 'w').write(data); return True

# --- mirror -----------------------------------------------------------------
# Sources are compiled from a mirror whose files are rewritten exactly when their
# content changes, so a rebuild depends on content and never on time stamps.
keep = set()
for d, ds, fs in os.walk(REPO + '/iamf'):
    ds[:] = [x for x in ds if x != 'testdata']
    for f in fs:
        if not f.endswith(('.cc', '.h', '.proto', '.inc', '.c', '.hpp', '.cpp')): continue
        rel = os.path.relpath(os.path.join(d, f), REPO)
        keep.add(rel); dst = os.path.join(R, rel)
        data = open(os.path.join(d, f), 'rb').read()
        try:
            if open(dst, 'rb').read() == data: continue
        except OSError: os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, 'wb').write(data)
for d, ds, fs in os.walk(R):
    for f in fs:
        q = os.path.join(d, f)
        if os.path.relpath(q, R) not in keep: os.remove(q)

# --- protos ---------------------------------------------------------------
protos = sorted(os.path.join(d, f) for d, _, fs in os.walk(R + '/iamf') for f in fs if f.endswith('.proto'))
h = hashlib.sha256()
for p in protos: h.update(p.encode()); h.update(open(p, 'rb').read())
for f in ('compat/proto2ify.py', 'tools/gen_ninja.py'): h.update(open(os.path.join(V, f), 'rb').read())
stamp = os.path.join(G, 'stamp')
if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
    S = os.path.join(G, 'stage'); rels = []
    for p in protos:
        rel = os.path.relpath(p, R); rels.append(rel)
        os.makedirs(os.path.dirname(os.path.join(S, rel)), exist_ok=True)
        subprocess.run([sys.executable, os.path.join(V, 'compat/proto2ify.py'), p, os.path.join(S, rel)], check=True)
    T = os.path.join(G, 'out'); os.makedirs(T, exist_ok=True)
    subprocess.run(['protoc', '-I.', '--cpp_out=' + T] + rels, cwd=S, check=True)
    for rel in rels:
        for ext in ('.pb.h', '.pb.cc'):
            b = rel[:-6] + ext
            s = open(os.path.join(T, b)).read()
            s = s.replace('static_cast<ArgT0 &&>(arg0)', 'verif_str(static_cast<ArgT0 &&>(arg0))')
            write_if_changed(os.path.join(G, b), s)
    open(stamp, 'w').write(h.hexdigest())

# protobuf 3.21's ParseFromString takes std::string only; upstream's takes views.
m = open('/usr/include/google/protobuf/message_lite.h').read()
d = 'bool ParseFromString(ConstStringParam data);'
m = m.replace(d, d + '''
  bool ParseFromString(const absl::string_view& data) {
    return ParseFromArray(data.data(), static_cast<int>(data.size()));
  }
  bool ParseFromString(const char* data) { return ParseFromString(std::string(data)); }''')
write_if_changed(os.path.join(G, 'google/protobuf/message_lite.h'), m)

# --- sources --------------------------------------------------------------
SKIP_DIRS = {'tests', 'test', 'testdata'}
SKIP = set()
srcs = []
for d, ds, fs in os.walk(R + '/iamf'):
    ds[:] = [x for x in ds if x not in SKIP_DIRS]
    for f in fs:
        if not f.endswith('.cc') or f.endswith('_test.cc') or f.endswith('_main.cc') or 'benchmark' in f: continue
        srcs.append(os.path.join(d, f))
srcs.sort()
gens = sorted(os.path.join(G, os.path.relpath(p, R)[:-6] + '.pb.cc') for p in protos)
comp = [V + '/compat/third_party/standins.cc']
tp = V + '/compat/third_party'
inc = ' '.join('-I' + x for x in [V + '/compat/include', tp, tp + '/include', R, G] + [tp + '/%s/include' % d for d in ('libAACdec', 'libAACenc', 'libSYS')]) + ' -isystem /usr/include/eigen3'
fl = '-std=c++20 -w -pthread ' + FLAGS
prelude = V + '/compat/include/prelude.h'
o = []
o.append('ninja_required_version = 1.5')
o.append('rule pch\n  command = g++ %s %s -MMD -MF $out.d -x c++-header $in -o $out\n  depfile = $out.d\n  deps = gcc' % (fl, inc))
o.append('rule cc\n  command = g++ %s $extra -I%s/pch -include prelude.h %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % (fl, B, inc))
o.append('rule ar\n  command = rm -f $out && ar crs $out $in')
o.append('rule ld\n  command = g++ %s $in -o $out -Wl,--start-group $absl -Wl,--end-group -lprotobuf -lexpat -lpthread $libs' % fl)
o.append('rule ldfull\n  command = g++ %s $in -o $out -Wl,--start-group %s/libiamf.a $absl -Wl,--end-group -lprotobuf -lexpat -lpthread $libs' % (fl, B))
absl = sorted('-l' + f[3:-2] for f in os.listdir('/usr/lib/x86_64-linux-gnu') if f.startswith('libabsl_') and f.endswith('.a'))
o.append('absl = ' + ' '.join(absl))
o.append('build pch/prelude.h.gch: pch ' + prelude)
objs = {}
def cc(src, extra=''):
    if src in objs: return objs[src]
    rel = os.path.relpath(src, R) if src.startswith(R + '/') else os.path.relpath(src, V)
    ob = 'o/' + rel.replace('/', '_') + '.o'
    o.append('build %s: cc %s | pch/prelude.h.gch' % (ob, src))
    if extra: o.append('  extra = ' + extra)
    objs[src] = ob
    return ob
for s in srcs + gens + comp: cc(s)
o.append('build libiamf.a: ar ' + ' '.join(objs.values()))
# A harness links the objects reachable from it through #include (a header pulls
# in the source file of the same name); bin/<h>.full links everything.
import re, functools
INC = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
srcset = set(srcs) | set(gens)
@functools.lru_cache(None)
def includes(path):
    r = []
    for i in INC.findall(open(path, errors='replace').read()):
        for root in (R, R + '/iamf/include', G, V + '/harness', os.path.dirname(path)):
            q = os.path.normpath(os.path.join(root, i))
            if os.path.isfile(q): r.append(q); break
    return r
def closure(path):
    seen, todo, out = set(), [path], []
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        if f in srcset: out.append(f)
        todo += includes(f)
        if f.endswith('.h'):
            c = f[:-2] + '.cc'
            if c in srcset: todo.append(c)
    return sorted(out)
H = V + '/harness'
for f in sorted(os.listdir(H)):
    if not f.endswith('.cc'): continue
    ob = cc(os.path.join(H, f), '-I' + H)
    deps = ' '.join([ob] + [cc(x) for x in closure(os.path.join(H, f))] + [cc(x) for x in comp])
    o.append('build bin/%s: ld %s' % (f[:-3], deps))
    o.append('build bin/%s.full: ldfull %s | libiamf.a' % (f[:-3], ob))
write_if_changed(os.path.join(B, 'build.ninja'), '\n'.join(o) + '\n')
