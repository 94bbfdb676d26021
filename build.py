#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree. Objects are cached under /verif/build by the
hash of everything that goes into them, so that only what changed is compiled again."""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RRJ_REPO', '/repo')
BUILD = os.environ.get('RRJ_BUILD', os.path.join(VERIF, 'build'))
H = os.path.join(VERIF, 'harness')
LLVM = '/usr/lib/llvm-18'
DEFS = ['-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER', '-DCPP_UTILITIES_USE_STANDARD_FILESYSTEM', '-DREFLECTIVE_RAPIDJSON_STATIC']
LIBINC = ['-I' + REPO, '-I' + REPO + '/lib', '-I' + REPO + '/lib/include', '-I' + H + '/stub', '-isystem', '/usr/include/martchus-c++utilities']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr']
IGN = ['-fsanitize-ignorelist=' + H + '/ubsan.ignore']
CXX = [LLVM + '/bin/clang++', '-std=gnu++17', '-O1', '-g1', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer', '-w'] + SAN + IGN + DEFS
GENCXX = ['g++', '-std=gnu++17', '-O0', '-w'] + DEFS
GROUPS = ['a', 'b', 'c', 'v', 'p']
GENFLAGS = {
    'a': ['json', 'binary'], 'b': ['json', 'binary'], 'c': ['json', 'binary'], 'v': ['binary'], 'p': ['json', 'binary'],
}


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b'\0')
    return h.hexdigest()[:24]


def content(path):
    with open(path, 'rb') as f:
        return f.read()


class BuildError(Exception):
    pass


_inc = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)


def closure(src, dirs, seen=None):
    """All project files a source includes (system headers are taken as fixed)."""
    seen = {} if seen is None else seen
    src = os.path.realpath(src)
    if src in seen:
        return seen
    data = content(src)
    seen[src] = data
    for m in _inc.findall(data):
        name = m.decode()
        for d in [os.path.dirname(src)] + dirs:
            p = os.path.join(d, name)
            if os.path.isfile(p):
                closure(p, dirs, seen)
                break
    return seen


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), p.stdout.decode(errors='replace')[-6000:]))


def place(cmd, out, what):
    """Run a command writing to {out}.tmp and move the result into place."""
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = '%s.%d.tmp' % (out, os.getpid())
    if out.endswith('.o') or out.endswith('.h'):
        tmp += out[-2:]
    run([a.replace('{out}', tmp) for a in cmd], what)
    os.replace(tmp, out)
    return out


def compile_obj(cmd, src, incs):
    dirs = [i[2:] for i in incs if i.startswith('-I')]
    files = closure(src, dirs)
    key = digest(' '.join(cmd + incs), content(os.path.join(H, 'ubsan.ignore')), *[k.replace(REPO, '@repo').encode() + b'\0' + files[k] for k in sorted(files)])
    out = os.path.join(BUILD, 'obj', '%s-%s.o' % (os.path.basename(src).replace('.cpp', ''), key))
    return place(cmd + incs + ['-c', src, '-o', '{out}'], out, 'compiling ' + src)


def prune(directory, keep, limit):
    try:
        files = sorted((os.path.join(directory, f) for f in os.listdir(directory)), key=os.path.getmtime)
    except OSError:
        return
    size = sum(os.path.getsize(f) for f in files)
    for f in files:
        if size <= limit:
            break
        if f not in keep:
            size -= os.path.getsize(f)
            os.unlink(f)


def generator_sources():
    d = os.path.join(REPO, 'generator')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


def link(cmd, objs, name, libs):
    key = digest(' '.join(cmd + libs), *[os.path.basename(o) for o in objs])
    return place(cmd + objs + libs + ['-o', '{out}'], os.path.join(BUILD, 'bin', '%s-%s' % (name, key)), 'linking ' + name)


GENLIBS = [LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.1', '-lmartchus-c++utilities', '-lstdc++fs', '-Wl,-rpath,' + LLVM + '/lib']
GENINC = LIBINC + ['-I' + REPO + '/generator', '-isystem', LLVM + '/include']


def submit_generator(pool, prefix=GENCXX, extra=()):
    out = []
    for s in generator_sources():
        cmd = list(prefix)
        if extra and os.path.basename(s) == 'main.cpp':
            cmd += list(extra)
        out.append(pool.submit(compile_obj, cmd, s, GENINC))
    return out


def gen_header(generator, group):
    src = os.path.join(H, 'types', group + '.h')
    incs = [i[2:] for i in LIBINC if i.startswith('-I')]
    files = closure(src, incs)
    key = digest(os.path.basename(generator), *[k.replace(REPO, '@repo').encode() + b'\0' + files[k] for k in sorted(files)])
    opts = ['-resource-dir', LLVM + '/lib/clang/18', '-std=c++17', '-I' + H] + DEFS
    it = iter(LIBINC)
    for i in it:
        opts += [i, next(it)] if i == '-isystem' else [i]
    cmd = [generator, '--input-file', src, '--output-file', '{out}', '--generators'] + GENFLAGS[group] + ['--clang-opt'] + opts
    return place(cmd, os.path.join(BUILD, 'gen', key, 'gen', group + '.h'), 'generating reflection code for %s.h' % group)


def build_generator(pool):
    objs = [f.result() for f in submit_generator(pool)]
    return link(['g++'], objs, 'generator', GENLIBS)


def harness_sources():
    return sorted(f for f in os.listdir(H) if f.endswith('.cpp') and not f.startswith('gensim'))


COV = ['-fsanitize-coverage=trace-pc-guard']


DEPWRAPS = ['_ZN12CppUtilities18DateTimeExpression13fromIsoStringEPKc', '_ZN12CppUtilities8TimeSpan10fromStringEPKcc',
            '_ZN12CppUtilities12BinaryReader27bufferVariableLengthIntegerEv',
            '_ZNK12CppUtilities8DateTime11toIsoStringB5cxx11ENS_8TimeSpanE',
            '_ZNK12CppUtilities8TimeSpan8toStringERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_20TimeSpanOutputFormatEb',
            '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE']


# C10: nothing is kept in registers, and accesses to memory are seen
FINE = ['-O0', '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores']


def build_sim(fine=False):
    t0 = time.time()
    cov = COV if not fine else FINE
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        gen = submit_generator(pool)
        futures = []
        later = []
        for f in harness_sources():
            src = os.path.join(H, f)
            if f.startswith('ops_') and f[4:-4] in GROUPS:
                later.append(f)
                continue
            cmd = CXX + (cov if f.startswith('ops') else [])
            futures.append(pool.submit(compile_obj, cmd, src, ['-I' + H] + LIBINC))
        generator = link(['g++'], [x.result() for x in gen], 'generator', GENLIBS)
        heads = {g: pool.submit(gen_header, generator, g) for g in GROUPS}
        for f in later:
            h = heads[f[4:-4]].result()
            inc = os.path.dirname(os.path.dirname(h))
            futures.append(pool.submit(compile_obj, CXX + cov, os.path.join(H, f), ['-I' + H, '-I' + inc] + LIBINC))
        objs = [x.result() for x in futures]
    wraps = ['-Wl,--wrap=malloc,--wrap=realloc,--wrap=free',
             '-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_once,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort'] + ['-Wl,--wrap=' + w for w in DEPWRAPS]
    out = link([LLVM + '/bin/clang++'] + SAN + cov + wraps, objs, 'simfine' if fine else 'sim', ['-lmartchus-c++utilities', '-lstdc++fs', '-lpthread', '-ldl'])
    keep = set(objs)
    prune(os.path.join(BUILD, 'obj'), keep, 3 << 30)
    prune(os.path.join(BUILD, 'bin'), {out, generator}, 2 << 30)
    sys.stderr.write('built %s in %.1f s\n' % (os.path.basename(out), time.time() - t0))
    return out


E2ECXX = [LLVM + '/bin/clang++', '-std=gnu++17', '-O0', '-w'] + DEFS
E2EHEAD = """#ifndef RRJ_H
#define RRJ_H
#include <lib/json/reflector.h>
#include <lib/json/serializable.h>
#include <lib/binary/reflector.h>
#include <lib/binary/serializable.h>
#include <algorithm>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
struct Probe;
#define JSON_RECORD(key, head, name) key head : public ReflectiveRapidJSON::JsonSerializable<name>
enum class E0 : unsigned char { A = 1, B = 7 };
template <unsigned long long v> struct Release { static constexpr unsigned long long version = v; };
constexpr unsigned firstRelease = 1;
#endif
"""
_macro = re.compile(r'#define (as_of_version|until_version|RAPIDJSON_NAMESPACE|REFLECTIVE_RAPIDJSON_(?!GENERATOR\b|SHORT_MACROS\b|TRAITS\b|VERSIONING\b)\w+(?<!_H))\b')


def build_e2e():
    """What programs made from generated code need: the precompiled library and the macros of its headers."""
    incs = [i[2:] for i in LIBINC if i.startswith('-I')]
    files = {}
    for h in ['json/reflector.h', 'json/serializable.h', 'binary/reflector.h', 'binary/serializable.h']:
        closure(os.path.join(REPO, 'lib', h), incs, files)
    # (the precompiled header knows the files by their names)
    key = digest(REPO, E2EHEAD, ' '.join(E2ECXX), _macro.pattern, *[k.encode() + b'\0' + files[k] for k in sorted(files)])
    d = os.path.join(BUILD, 'e2e', key)
    if not os.path.exists(os.path.join(d, 'rrj.h.pch')):
        os.makedirs(d, exist_ok=True)
        head = os.path.join(d, 'rrj.h')
        tmp = '%s.%d.tmp' % (head, os.getpid())
        with open(tmp, 'w') as f:
            f.write(E2EHEAD)
        os.replace(tmp, head)
        p = subprocess.run(E2ECXX + LIBINC + ['-DREFLECTIVE_RAPIDJSON_GENERATOR', '-DREFLECTIVE_RAPIDJSON_SHORT_MACROS', '-E', '-dM', head], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise BuildError('macros of the library: ' + p.stderr.decode(errors='replace')[-3000:])
        with open(os.path.join(d, 'macros.h'), 'w') as f:
            f.write(''.join(sorted(l + '\n' for l in p.stdout.decode().splitlines() if _macro.match(l))))
        place(E2ECXX + LIBINC + ['-DREFLECTIVE_RAPIDJSON_SHORT_MACROS', '-x', 'c++-header', '-Xclang', '-fno-pch-timestamp', head, '-o', '{out}'], head + '.pch', 'precompiling the library')
        os.utime(d)
    return d


def build_gensim():
    t0 = time.time()
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        generator = [LLVM + '/bin/clang++', '-std=gnu++17', '-O0', '-w'] + DEFS + COV
        futures = submit_generator(pool, generator, ['-Dmain=generator_main'])
        e2e = ['-DE2E_DIR="%s"' % build_e2e(), '-DE2E_CXX="%s"' % ' '.join(E2ECXX + ['-DREFLECTIVE_RAPIDJSON_SHORT_MACROS'] + LIBINC)]
        futures.append(pool.submit(compile_obj, ['g++', '-std=gnu++17', '-O1', '-g1', '-w', '-fno-builtin', '-DGENSIM'] + e2e, os.path.join(H, 'gensim.cpp'), ['-I' + H]))
        for f in ['gensim_io.cpp', 'gensim_alloc.cpp', 'core.cpp', 'main.cpp']:
            futures.append(pool.submit(compile_obj, ['g++', '-std=gnu++17', '-O1', '-g1', '-w', '-fno-builtin'] + (['-DGENSIM'] if f != 'core.cpp' else []), os.path.join(H, f), ['-I' + H]))
        objs = [x.result() for x in futures]
    out = link([LLVM + '/bin/clang++', '-Wl,-z,now'], objs, 'gensim', GENLIBS + ['-lpthread', '-ldl'])
    sys.stderr.write('built %s in %.1f s\n' % (os.path.basename(out), time.time() - t0))
    return out


if __name__ == '__main__':
    try:
        if sys.argv[1:] == ['fine']:
            print(build_sim(True))
        elif sys.argv[1:] != ['gensim']:
            print(build_sim())
        if sys.argv[1:] in (['all'], ['gensim']):
            print(build_gensim())
    except BuildError as e:
        sys.stderr.write(str(e) + '\n')
        sys.exit(2)
