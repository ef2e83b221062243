#!/usr/bin/env python3
"""Builds winsim: the complete jom application from a source tree, linked with the simulated operating system.

usage: build.py [--repo DIR] [--out DIR] [--asan]
Only the sources that the repository's own CMakeLists.txt files list are compiled, as they are in the working tree."""
import os, re, subprocess, sys, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
QT = '/usr/include/x86_64-linux-gnu/qt5'

def cmake_sources(path, fn):
    txt = open(path, encoding='utf-8', errors='replace').read()
    txt = re.sub(r'#[^\n]*', '', txt)
    out = []
    for m in re.finditer(fn + r'\s*\(([^)]*)\)', txt):
        for w in m.group(1).split():
            if w.endswith(('.cpp', '.h')) and w not in out:
                out.append(w)
    return out

def build(repo='/repo', out=None, asan=False, quiet=True, extra=()):
    out = out or os.path.join(os.path.dirname(HERE), 'build', 'sim')
    os.makedirs(out, exist_ok=True)
    jl, app = os.path.join(repo, 'src/jomlib'), os.path.join(repo, 'src/app')
    lib = cmake_sources(os.path.join(jl, 'CMakeLists.txt'), r'(?:add_library|target_sources)')
    ap = cmake_sources(os.path.join(app, 'CMakeLists.txt'), r'(?:add_executable|target_sources)')
    ver = open(os.path.join(app, 'version.txt')).read().strip().split('.')
    wine = ['-fshort-wchar', '-DWINE_UNICODE_NATIVE', '-D_REENTRANT',
            '-DWIN64', '-D_WIN64', '-D__WIN64', '-D__WIN64__', '-DWIN32', '-D_WIN32', '-D__WIN32', '-D__WIN32__', '-D__WINNT', '-D__WINNT__',
            '-D__stdcall=__attribute__((ms_abi))', '-D__cdecl=__stdcall', '-D__fastcall=__stdcall', '-D_stdcall=__stdcall', '-D_cdecl=__cdecl', '-D_fastcall=__fastcall',
            '-D__declspec(x)=__declspec_##x', '-D__declspec_align(x)=__attribute__((aligned(x)))', '-D__declspec_allocate(x)=__attribute__((section(x)))',
            '-D__declspec_deprecated=__attribute__((deprecated))', '-D__declspec_dllimport=', '-D__declspec_dllexport=',
            '-D__declspec_naked=__attribute__((naked))', '-D__declspec_noinline=__attribute__((noinline))', '-D__declspec_noreturn=__attribute__((noreturn))',
            '-D__declspec_nothrow=__attribute__((nothrow))', '-D__declspec_novtable=', '-D__declspec_selectany=__attribute__((weak))', '-D__declspec_thread=__thread',
            '-D__int8=char', '-D__int16=short', '-D__int32=int', '-D__int64=long', '-D__WINE__',
            '-isystem/usr/include/wine/wine/windows', '-idirafter/usr/include/wine']
    common = ['-w', '-fPIC', '-O1', '-g1', '-DQT_CORE_LIB', '-DQT_NO_DEBUG', '-DNDEBUG', '-isystem', QT, '-isystem', QT + '/QtCore', '-I' + HERE]
    if asan:
        common += ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-omit-frame-pointer', '-D_FORTIFY_SOURCE=0', '-fno-sanitize-recover=undefined']
    common += list(extra)
    libdefs = ['-DQT_NO_CAST_FROM_ASCII', '-DQT_NO_CAST_TO_ASCII', '-DUNICODE']
    appdefs = ['-DJOM_VERSION_MAJOR=' + ver[0], '-DJOM_VERSION_MINOR=' + ver[1], '-DJOM_VERSION_PATCH=' + ver[2]]
    jobs = []        # (object, command, inputs)
    def cxx(src, obj, flags):
        jobs.append((os.path.join(out, obj), ['g++', '-c', src, '-o', os.path.join(out, obj)] + flags))
    mocjobs = []
    def moc(src, base, flags, inc):
        txt = open(src, encoding='utf-8', errors='replace').read()
        if 'Q_OBJECT' not in txt and 'Q_GADGET' not in txt and 'Q_NAMESPACE' not in txt:
            return
        name = 'moc_' + inc + '_' + base.replace('.', '_')
        if src.endswith('.cpp'):
            dst = os.path.join(out, 'mocinc', base[:-4] + '.moc')
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            mocjobs.append(['moc', '-DQ_OS_WIN', src, '-o', dst])
        else:
            dst = os.path.join(out, name + '.cpp')
            mocjobs.append(['moc', '-DQ_OS_WIN', src, '-o', dst, '-f' + src])
            cxx(dst, name + '.o', flags)
    wf = common + wine + ['-include', os.path.join(HERE, 'msvc_names.h')]
    for lst, d, defs, inc in ((lib, jl, libdefs, 'lib'), (ap, app, appdefs, 'app')):
        flags = wf + defs + ['-I' + jl, '-I' + os.path.join(out, 'mocinc')]
        headers = sorted(set(f for f in lst if f.endswith('.h')) | set(
            f[:-4] + '.h' for f in lst if f.endswith('.cpp') and os.path.exists(os.path.join(d, f[:-4] + '.h'))))
        for f in headers:
            if os.path.exists(os.path.join(d, f)):
                moc(os.path.join(d, f), f, flags, inc)
        for f in lst:
            if f.endswith('.cpp'):
                moc(os.path.join(d, f), f, flags, inc)
                cxx(os.path.join(d, f), inc + '_' + f.replace('/', '_')[:-4] + '.o', flags)
    mocjobs.append(['moc', '-DQ_OS_WIN', QT + '/QtCore/qwineventnotifier.h', '-o', os.path.join(out, 'moc_notifier.inc'), '-fQtCore/qwineventnotifier.h'])
    cxx(os.path.join(HERE, 'win32.cpp'), 'sim_win32.o', wf + ['-DUNICODE', '-I' + out])
    cxx(os.path.join(HERE, 'notifier.cpp'), 'sim_notifier.o', wf + ['-I' + out])
    cxx(os.path.join(HERE, 'core.cpp'), 'sim_core.o', common)
    log = []
    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            log.append(' '.join(cmd) + '\n' + p.stdout)
        return p.returncode
    with ThreadPoolExecutor(8) as ex:
        if any(ex.map(run, mocjobs)):
            raise SystemExit('build failed:\n' + '\n'.join(log))
        jobs.sort(key=lambda j: -os.path.getsize(j[1][2]))
        if any(ex.map(lambda j: run(j[1]), jobs)):
            raise SystemExit('build failed:\n' + '\n'.join(log))
    exe = os.path.join(out, 'winsim')
    link = ['g++', '-o', exe] + [j[0] for j in jobs] + ['-L/usr/lib/x86_64-linux-gnu', '-lQt5Core', '-ldl', '-lpthread']
    if asan:
        link.insert(1, '-fsanitize=address,undefined')
    if run(link):
        raise SystemExit('link failed:\n' + '\n'.join(log))
    return exe

if __name__ == '__main__':
    import argparse, time
    a = argparse.ArgumentParser()
    a.add_argument('--repo', default='/repo'); a.add_argument('--out'); a.add_argument('--asan', action='store_true')
    o = a.parse_args()
    t = time.time()
    print(build(o.repo, o.out, o.asan), '%.1fs' % (time.time() - t))
