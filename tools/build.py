#!/usr/bin/env python3
"""Builds the simulation executables from /repo's working tree into /verif/build.

usage: build.py TARGET...   (simA, simT, simB)

simA  the sources which need neither libcxml nor asdcplib, and the few they throw or load with
simT  the table and clock sources, compiled so that every memory access is a scheduling point
simB  the whole library, with the stand-ins for libcxml and asdcplib"""

import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = VERIF + '/build'

CORE = '''bitstream chromaticity colour_conversion content_kind data file filesystem fsk
          gamma_transfer_function h_align identity_transfer_function local_time
          modified_gamma_transfer_function name_format s_gamut3_transfer_function
          subtitle_standard transfer_function utc_offset v_align'''.split()
EXTRA_A = ['exceptions', 'locale_convert', 'array_data']
NOT_IN_B = ['version']
TOOLS = 'common dcpdecryptmxf dcpdiff dcpdumpimage dcpdumpsub dcpinfo dcpkdm dcprecover dcpthumb dcpverify'.split()

INCLUDE = re.compile(r'^\s*#\s*include\s*(["<])([^">]+)', re.M)
cache = {}


def needs_missing(path, stack=()):
    """True if path, or a project header it includes, includes libcxml or asdcplib"""
    if path in cache:
        return cache[path]
    result = False
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    for _, name in INCLUDE.findall(text):
        if name.startswith(('libcxml/', 'asdcp/')):
            result = True
            break
        for d in (os.path.dirname(path), REPO + '/src'):
            p = os.path.normpath(os.path.join(d, name))
            if os.path.isfile(p):
                if p not in stack and needs_missing(p, stack + (path,)):
                    result = True
                break
        if result:
            break
    cache[path] = result
    return result


def listed():
    with open(REPO + '/src/wscript') as f:
        text = re.sub(r'^\s*#.*$', '', f.read(), flags=re.M)
    names = sorted(set(re.findall(r'\b(\w+)\.cc\b', text)))
    return [n for n in names if os.path.exists(f'{REPO}/src/{n}.cc')]


def pkg(*args):
    out = subprocess.run(('pkg-config',) + args + ('openssl', 'libxml++-2.6', 'xmlsec1-openssl', 'sndfile', 'libopenjp2',
                         'xerces-c', 'fmt', 'libavcodec', 'libavutil'), check=True, capture_output=True, text=True).stdout
    return ' '.join(x for x in out.split() if not ('\\' in x or '"' in x))


def glob(directory, pattern):
    d = f'{VERIF}/{directory}'
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if re.fullmatch(pattern, f))


def generate():
    names = listed()
    core = [n for n in names if n in CORE or not needs_missing(f'{REPO}/src/{n}.cc')]
    core = sorted(set(core + [n for n in CORE if os.path.exists(f'{REPO}/src/{n}.cc')]))
    extra = [n for n in EXTRA_A if n not in core]

    out = []
    ccache = 'ccache ' if subprocess.run(['which', 'ccache'], capture_output=True).returncode == 0 else ''
    out.append(f'builddir = {BUILD}')
    out.append(f'cxx = {ccache}g++')
    defs = ('-D_FILE_OFFSET_BITS=64 -D__STDC_FORMAT_MACROS -DLIBDCP_VERSION=\\"devel\\" -DLIBDCP_LINUX '
            '-Wno-deprecated-declarations -DLIBDCP_MPEG2_TRANSCODE -DLIBDCP_HAVE_NO_CHECK_TIME=1 '
            '-DLIBDCP_HAVE_WEAKLY_CANONICAL=1 -DLIBDCP_HAVE_COPY_OPTIONS=1 -DLIBDCP_HAVE_REPLACE_EXTENSION=1 '
            f'-DLIBDCP_HAVE_HARU=1 -fPIC -pthread -I{REPO}/src -I{VERIF}/standin/include ' + pkg('--cflags'))
    out.append(f'defs = {defs}')
    out.append('lib = -std=c++11 -O1 -g1 -w')
    out.append('har = -std=c++17 -O1 -g1 -Wall -Wextra -Wno-unused-parameter -fno-threadsafe-statics')
    out.append('libs = -Wl,--as-needed -lboost_filesystem -lboost_system -lboost_date_time -lboost_thread -lboost_chrono -lhpdf -ldl ' + pkg('--libs'))
    out.append('rule cxx\n  command = $cxx $flags $defs -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in')
    out.append('rule link\n  command = g++ -rdynamic -pthread -o $out $in $libs $extra\n  description = LINK $out')

    def cc(src, obj, flags):
        out.append(f'build {BUILD}/{obj}: cxx {src}\n  flags = {flags}')
        return f'{BUILD}/{obj}'

    sim = [cc(f'{VERIF}/sim/{f}.cc', f'sim/{f}.o', '$har') for f in ('kernel', 'libc', 'driver', 'helpers')]
    fileio = cc(f'{VERIF}/standin/src/fileio.cc', 'standin/fileio.o', '$har')
    # allocation failures and real time never hit the simulator: it is compiled apart from what it drives

    def props(letter):
        return [cc(f'{VERIF}/props/{f}', f'props/{f[:-3]}.o', '$har') for f in glob('props', letter + r'_\w+\.cc')]

    lib_a = {n: cc(f'{REPO}/src/{n}.cc', f'lib/{n}.o', '$lib') for n in core + extra}

    out.append(f'build {BUILD}/simA: link {" ".join(sim + props("a") + list(lib_a.values()) + [fileio])}')

    threaded = [n for n in core if n not in ('file', 'filesystem', 'data')]
    lib_t = [cc(f'{REPO}/src/{n}.cc', f'tsan/{n}.o', '$lib -fsanitize=thread') for n in threaded]
    # the rest of what simT links with is not instrumented
    rest_t = [lib_a[n] for n in ('file', 'filesystem', 'data') if n in lib_a] + [lib_a[n] for n in extra]
    sched = [cc(f'{VERIF}/sim/sched.cc', 'sim/sched.o', '$har')] if os.path.exists(f'{VERIF}/sim/sched.cc') else []
    props_t = [cc(f'{VERIF}/props/{f}', f'props/{f[:-3]}.o', '$har -fsanitize=thread') for f in glob('props', r't_\w+\.cc')]
    wraps = ('memcpy memmove memset memcmp malloc localtime gmtime _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ '
             '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ _ZNSt8__detail15_List_node_base7_M_hookEPS0_').split()
    # instrumented objects come first so that their copies of inline functions are the ones used
    out.append(f'build {BUILD}/simT: link {" ".join(lib_t + props_t + sched + sim + rest_t + [fileio])}\n  extra = ' + ' '.join('-Wl,--wrap=' + w for w in wraps))

    lib_b = [lib_a[n] if n in lib_a else cc(f'{REPO}/src/{n}.cc', f'lib/{n}.o', '$lib') for n in names if n not in NOT_IN_B]
    stand = [cc(f'{VERIF}/standin/src/{f}', f'standin/{f[:-3]}.o', '$har') for f in glob('standin/src', r'\w+\.cc') if f != 'fileio.cc']
    # the command-line tools, each with its main function under another name
    out.append('rule tool\n  command = $cxx $flags $defs -MD -MF $out.d -c $in -o $out && objcopy --redefine-sym main=main_$name --redefine-sym exit=tool_exit $out\n  depfile = $out.d\n  deps = gcc\n  description = TOOL $in')
    tools = []
    for n in TOOLS:
        if os.path.exists(f'{REPO}/tools/{n}.cc'):
            out.append(f'build {BUILD}/tools/{n}.o: tool {REPO}/tools/{n}.cc\n  flags = $lib\n  name = {n}')
            tools.append(f'{BUILD}/tools/{n}.o')
    common = [cc(f'{VERIF}/props/{f}', f'props/{f[:-3]}.o', '$har') for f in glob('props', r'b_\w+\.cc')]
    # locales for L01, which does with fewer if one cannot be made
    out.append('rule locale\n  command = (localedef -i $source -f $charmap $dir/$name >/dev/null 2>&1 || true) && touch $out\n  description = LOCALE $name')
    locales = []
    for name, source, charmap in (('de_DE.UTF-8', 'de_DE', 'UTF-8'), ('tr_TR.UTF-8', 'tr_TR', 'UTF-8'), ('tr_TR.ISO-8859-9', 'tr_TR', 'ISO-8859-9')):
        locales.append(f'{BUILD}/locale/{name}.made')
        out.append(f'build {locales[-1]}: locale\n  dir = {BUILD}/locale\n  name = {name}\n  source = {source}\n  charmap = {charmap}')
    out.append(f'build {BUILD}/simB: link {" ".join(sim + stand + common + tools + lib_b + [fileio])} || {" ".join(locales)}')

    os.makedirs(BUILD, exist_ok=True)
    text = '\n'.join(out) + '\n'
    path = BUILD + '/build.ninja'
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)


def forget_stale():
    """removes objects whose source has changed, by content: the times of files prove nothing"""
    path = BUILD + '/sources.json'
    old = json.load(open(path)) if os.path.exists(path) else {}
    new = {}
    for d in (REPO + '/src', REPO + '/tools', VERIF + '/sim', VERIF + '/props', VERIF + '/standin'):
        for base, _, files in os.walk(d):
            for f in sorted(files):
                if f.endswith(('.cc', '.h', '.hpp')):
                    with open(f'{base}/{f}', 'rb') as g:
                        new[f'{base}/{f}'] = hashlib.sha1(g.read()).hexdigest()
    changed = [f for f in set(old) | set(new) if old.get(f) != new.get(f)]
    everything = any(not f.endswith('.cc') for f in changed)
    stems = {os.path.basename(f)[:-3] for f in changed if f.endswith('.cc')}
    for base, _, files in os.walk(BUILD):
        if '/ccache' in base:
            continue
        for f in files:
            if f.endswith('.o') and (everything or f[:-2] in stems):
                os.unlink(f'{base}/{f}')
    if old != new:
        with open(path, 'w') as f:
            json.dump(new, f)


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(targets)


def build_locked(targets):
    forget_stale()
    generate()
    env = dict(os.environ, CCACHE_DIR=BUILD + '/ccache', CCACHE_SLOPPINESS='time_macros', CCACHE_BASEDIR='', LC_ALL='C')
    for v in ('CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LD_LIBRARY_PATH'):
        env.pop(v, None)
    r = subprocess.run(['ninja', '-k', '0', '-C', BUILD, '-f', BUILD + '/build.ninja'] + [f'{BUILD}/{t}' for t in targets], env=env, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        return False
    return True


if __name__ == '__main__':
    sys.exit(0 if build(sys.argv[1:] or ['simA', 'simT', 'simB']) else 2)
