"""Builds the library of /repo's working tree in a flavor, and the harness of a property."""
import os, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SNN_REPO', '/repo')
BUILD = os.environ.get('SNN_BUILD', os.path.join(VERIF, '.build'))

BOOST = 'src/external_library/boost_1_80_0_minimal'


def includes():
    r = []
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'include/snn'))):
        r.append(root)
    for d in ['include', BOOST, 'src/external_library/bitmap', 'src/external_library/cpp-static-block']:
        r.append(os.path.join(REPO, d))
    return r


def sources():
    r = []
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'src'))):
        if 'external_library' not in root:
            r += [os.path.join(root, f) for f in sorted(files) if f.endswith('.cpp')]
    return r


SAN = '-fsanitize=address,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'
FLAVORS = {
    # the flags of the project
    'rel': {'lib': '-O3 -ffast-math -fopenmp', 'harness': '-O1 -fopenmp', 'link': '-fopenmp'},
    # no optimization across functions: the harness replaces the random generator and the clock
    'det': {'lib': '-O1 -fno-inline', 'harness': '-O1', 'link': ''},
    # memory and arithmetic errors abort the execution
    'san': {'lib': '-O1 -g1 -fno-inline ' + SAN, 'harness': '-O1 -g1 ' + SAN, 'link': SAN},
    # every memory access and atomic operation calls the scheduler of mc/sched.cpp
    'sched': {'lib': '-O1 -g1 -fno-inline -fsanitize=thread', 'harness': '-O1 -g1 -fno-inline -fsanitize=thread',
              'link': '-rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'},
}
COMMON = '-std=c++20 -w -fPIC -pipe'


def write_ninja(flavor, harness, extra_sources=(), folder=os.path.join(VERIF, 'harness')):
    f = FLAVORS[flavor]
    out = os.path.join(BUILD, flavor)
    os.makedirs(out, exist_ok=True)
    paths = ' '.join('-I' + i for i in includes()) + ' -I' + os.path.join(VERIF, 'mc')
    lines = ['builddir = ' + BUILD,
             'rule lib', '  command = g++ -MMD -MF $out.d %s %s %s -c $in -o $out' % (COMMON, f['lib'], paths),
             '  depfile = $out.d', '  deps = gcc',
             'rule boost', '  command = g++ -MMD -MF $out.d %s -O1 %s -c $in -o $out' % (COMMON, paths),
             '  depfile = $out.d', '  deps = gcc',
             'rule harness', '  command = g++ -MMD -MF $out.d %s %s %s -c $in -o $out' % (COMMON, f['harness'], paths),
             '  depfile = $out.d', '  deps = gcc',
             'rule runtime', '  command = g++ -MMD -MF $out.d %s -O2 -g1 %s -c $in -o $out' % (COMMON, paths),
             '  depfile = $out.d', '  deps = gcc',
             'rule link', '  command = g++ %s -o $out $in -lpthread -ldl $extra' % f['link']]
    objects = []
    for s in sources():
        o = os.path.join(out, 'lib', os.path.relpath(s, REPO).replace('/', '_') + '.o')
        lines.append('build %s: lib %s' % (o, s))
        objects.append(o)
    for s in sorted(glob.glob(os.path.join(REPO, BOOST, 'libs/serialization/src/*.cpp'))):
        o = os.path.join(BUILD, 'boost', os.path.basename(s) + '.o')
        lines.append('build %s: boost %s' % (o, s))
        objects.append(o)
    binary = os.path.join(out, harness)
    hobjects = []
    for s in [os.path.join(folder, harness + '.cpp')] + [os.path.join(VERIF, 'mc', e) for e in extra_sources]:
        o = os.path.join(out, 'harness', os.path.basename(s) + '.o')
        lines.append('build %s: %s %s' % (o, 'runtime' if os.path.dirname(s).endswith('mc') else 'harness', s))
        hobjects.append(o)
    lines.append('build %s: link %s' % (binary, ' '.join(hobjects + objects)))
    lines.append('default ' + binary)
    ninja = os.path.join(out, harness + '.ninja')
    text = '\n'.join(lines) + '\n'
    if not os.path.exists(ninja) or open(ninja).read() != text:
        open(ninja, 'w').write(text)
    return ninja, binary


def build(flavor, harness, extra_sources=(), folder=os.path.join(VERIF, 'harness')):
    ninja, binary = write_ninja(flavor, harness, extra_sources, folder)
    r = subprocess.run(['ninja', '-f', ninja, '-j8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errors = [l for l in r.stdout.splitlines() if 'error' in l and 'g++ -MMD' not in l]
        print('\n'.join(errors[:20]) or r.stdout[-6000:])
        raise RuntimeError('build of %s (%s) failed' % (harness, flavor))
    return binary


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:]))
