#!/usr/bin/env python3
"""Writes build/<flavour>/build.ninja: all of /repo/src/*.cpp plus the harness, in one of two flavours."""
import glob, os, shutil, sys
flavour = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get('TSYM_REPO', '/repo')
out = os.path.join(here, 'build', flavour)
os.makedirs(out + '/lib', exist_ok=True)
os.makedirs(out + '/h', exist_ok=True)
flags = {
    'fast': '-O1 -g1 -fno-omit-frame-pointer',
    'san': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_DEBUG',
}[flavour]
link = {'fast': '', 'san': '-fsanitize=address,undefined -fno-sanitize-recover=all'}[flavour]
ccache = 'ccache ' if shutil.which('ccache') else ''
lines = [
    f'cxx = {ccache}g++',
    f'libflags = -std=c++17 {flags} -w -I{repo}/src -I{repo}/include/tsym -I{repo}/include',
    f'hflags = -std=gnu++17 {flags} -w -I{repo}/include -I{here}/harness',
    f'link = {link}',
    'rule lib\n  command = $cxx $libflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
    'rule h\n  command = $cxx $hflags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc',
    'rule ld\n  command = g++ $link $in -o $out -lquadmath -lgmpxx -lgmp',
]
objs = []
for f in sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True)):
    o = 'lib/' + os.path.relpath(f, repo + '/src')[:-4].replace('/', '__') + '.o'
    lines.append(f'build {o}: lib {f}')
    objs.append(o)
for f in sorted(glob.glob(here + '/harness/*.cpp')):
    o = 'h/' + os.path.basename(f)[:-4] + '.o'
    lines.append(f'build {o}: h {f}')
    objs.append(o)
lines.append('build mon: ld ' + ' '.join(objs))
text = '\n'.join(lines) + '\n'
path = out + '/build.ninja'
if not os.path.exists(path) or open(path).read() != text:
    open(path, 'w').write(text)
