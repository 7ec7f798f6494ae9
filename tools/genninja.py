#!/usr/bin/env python3
"""Writes a build.ninja that builds mizugaki (from $REPO, default /repo) against the
takatori/yugawara stand-ins in /verif/shim, plus the harness programs in /verif/harness.

usage: genninja.py BUILD_DIR [--config san|fast|tsan|gcc] [--upstream-tests]
"""
import glob, os, re, sys, argparse
ap = argparse.ArgumentParser()
ap.add_argument('out')
ap.add_argument('--config', default='san')
ap.add_argument('--upstream-tests', action='store_true')
a = ap.parse_args()
REPO = os.environ.get('REPO', '/repo')
VERIF = os.environ.get('VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = os.path.abspath(a.out)
os.makedirs(out + '/gen/mizugaki/parser', exist_ok=True)
inc = f'-I{VERIF}/shim -I{REPO}/include -I{REPO}/src -I{out}/gen'
common = f'-std=c++17 -g1 -fno-omit-frame-pointer -DSERIALIZE_REGION {inc}'
cfg = {
    # BOOST_ASSERT is kept on: a broken internal invariant must be visible
    'san': ('clang++', '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr'),
    'fast': ('clang++', '-O1'),
    'tsan': ('clang++', '-O1 -fsanitize=thread'),
    'gcc': ('g++', '-O1'),
}[a.config]
cxx, flags = cfg
L = []
w = L.append
w(f'builddir = {out}')
w(f'cxx = {cxx}')
w(f'flags = {common} {flags}')
w('rule cxx\n  description = cxx $out\n  command = $cxx $flags $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
w('rule pch\n  description = pch $out\n  command = $cxx $flags -x c++-header $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  deps = gcc')
w('rule ar\n  description = ar $out\n  command = rm -f $out && ar rcs $out @$out.rsp\n  rspfile = $out.rsp\n  rspfile_content = $in')
w('rule link\n  description = link $out\n  command = $cxx $flags $in $lf -o $out')
w('rule bison\n  description = bison $out\n  command = bison -Wall -Wno-error -Wno-conflicts-sr -o $cpp --defines=$hpp $in')
w('rule flex\n  description = flex $out\n  command = flex -Cfe -o $out $in')
g = out + '/gen/mizugaki/parser'
w(f'build {g}/sql_parser_generated.cpp {g}/sql_parser_generated.hpp: bison {REPO}/src/mizugaki/parser/sql_parser.yy\n  cpp = {g}/sql_parser_generated.cpp\n  hpp = {g}/sql_parser_generated.hpp')
w(f'build {g}/sql_scanner_generated.cpp: flex {REPO}/src/mizugaki/parser/sql_scanner.ll')
hpp = f'{g}/sql_parser_generated.hpp'
def obj(src):
    return out + '/obj/' + src.lstrip('/').replace('/', '_') + '.o'
pchs = {}
def pch(name, src):
    o = f'{out}/pch/{name}.pch'
    w(f'build {o}: pch {src}')
    pchs[name] = o
usepch = cxx == 'clang++'
if usepch:
    pch('ast', f'{VERIF}/harness/pch_ast.h')
    if os.path.exists(f'{VERIF}/shim/yugawara'):
        pch('ana', f'{VERIF}/harness/pch_analyzer.h')
def compile(src, needs=None, p=None, extra=''):
    o = obj(src)
    dep = []
    xf = extra
    if usepch and p in pchs:
        dep.append(pchs[p]); xf += f' -include-pch {pchs[p]}'
    if needs: dep += needs
    w(f'build {o}: cxx {src}' + (' | ' + ' '.join(dep) if dep else '') + (f'\n  xf = {xf}' if xf else ''))
    return o
def src(pat): return sorted(glob.glob(pat, recursive=True))
ast = [compile(s, p='ast') for s in src(f'{REPO}/src/mizugaki/ast/**/*.cpp')]
par = [compile(s, [hpp], p='ast') for s in src(f'{REPO}/src/mizugaki/parser/*.cpp')]
par += [compile(f'{g}/{n}.cpp', [hpp], p='ast') for n in ('sql_parser_generated', 'sql_scanner_generated')]
w(f'build {out}/libparser.a: ar {" ".join(ast + par)}')
libs = [f'{out}/libparser.a']
ana = None
if os.path.exists(f'{VERIF}/shim/yugawara'):
    ana = [compile(s, p='ana') for s in src(f'{REPO}/src/mizugaki/analyzer/**/*.cpp') + src(f'{REPO}/src/mizugaki/*.cpp') + src(f'{VERIF}/shim/src/*.cpp')]
    w(f'build {out}/libanalyzer.a: ar {" ".join(ana)}')
if a.upstream_tests:
    T = f'{REPO}/test'
    ts = [f'{T}/main.cpp'] + src(f'{T}/mizugaki/ast/*.cpp') + src(f'{T}/mizugaki/parser/*.cpp')
    w(f'build {out}/upstream-parser: link {" ".join(compile(s, [hpp], p="ast", extra=f"-I{T}") for s in ts)} {out}/libparser.a\n  lf = -lgtest -lpthread')
    if ana:
        ts2 = src(f'{T}/mizugaki/analyzer/**/*.cpp')
        w(f'build {out}/upstream-analyzer: link {obj(T + "/main.cpp")} {" ".join(compile(s, [hpp], p="ana", extra=f"-I{T}") for s in ts2)} {out}/libanalyzer.a {out}/libparser.a\n  lf = -lgtest -lpthread')
for s in src(f'{VERIF}/harness/*.cpp'):
    n = os.path.basename(s)[:-4]
    isana = re.match(r'a\d', n) is not None
    o = compile(s, [hpp], p='ana' if isana else 'ast', extra=f'-I{VERIF}/harness')
    w(f'build {out}/{n}: link {o} ' + (f'{out}/libanalyzer.a ' if isana else '') + f'{out}/libparser.a' + ('\n  lf = -lpthread' if a.config == 'tsan' else ''))
import re
seen=set()
for l in list(L):
    m=re.match(r'build (\S+): (link|ar)', l)
    if m: w(f'build {os.path.basename(m.group(1))}: phony {m.group(1)}')
open(out + '/build.ninja', 'w').write('\n'.join(L) + '\n')
