"""Which executable decides which property, and for how long it searches."""


def p(exe, over, quick=20, thorough=600, **kw):
    return dict(exe=exe, over=over, quick=quick, thorough=thorough, **kw)


PROPS = {
    'S01': p('simA', 'buffers, earlier file contents and placements of I/O faults while a buffer is saved'),
    'S02': p('simA', 'buffers, crash points and placements of I/O faults while a file is replaced through a temporary'),
    'S03': p('simA', 'file sizes and placements of short, interrupted and failing reads while files are loaded'),
    'S04': p('simA', 'histories of opening, moving, assigning, closing and destroying file objects, with failing opens'),
    'S05': p('simA', 'directory trees, histories of filesystem calls and placements of I/O faults, against a fault-free reference'),
    'S06': p('simA', 'programs of nested scope guards with moves, cancellations and exceptions'),
    'T01': p('simT', 'interleavings of up to three threads asking transfer functions for tables'),
    'T02': p('simT', 'histories of requests for tables with failing allocations and preemptions'),
    'T03': p('simT', 'interleavings of threads using the shared colour conversions for the first time'),
    'C01': p('simT', 'clock readings, time zone rules and interleavings of threads which take the current time'),
    'D01': p('simB', 'packages, ways of writing their XML and placements of I/O faults meanwhile', quick=40),
    'D02': p('simB', 'packages, earlier versions of them and crash points while their XML is written', quick=40),
    'D03': p('simB', 'sets of packages which share files and names, hard-link policies and placements of I/O faults while they are combined', quick=40),
    'D04': p('simB', 'packages, places and kinds of damage to them, listing orders and unreadable sectors while they are verified', quick=60),
    'D05': p('simB', 'intact and damaged packages, operations which only read them and placements of I/O faults meanwhile', quick=40),
    'D06': p('simB', 'documents and placements of I/O faults while they are written'),
    'D07': p('simB', 'file contents and placements of short, interrupted and failing reads while text, lists and digests are loaded'),
    'D08': p('simB', 'directory trees, listing orders and unreadable directories while packages are searched for'),
    'D09': p('simB', 'placements of failing commands, file calls and full disks while a certificate chain is made'),
    'D10': p('simB', 'operations of thirteen kinds and placements of I/O faults and failing allocations meanwhile', quick=40),
    'D11': p('simB', 'verified packages and notes, and placements of I/O faults while the report of them is written'),
    'D12': p('simB', 'the calls of callbacks at which verifying, comparing or digesting is cancelled, and I/O faults besides'),
    'D13': p('simB', 'packages and key messages and the damage to their documents, for each of eight operations'),
    'D14': p('simB', 'originals, supplemental packages and what is done with them, and placements of I/O faults'),
    'L01': p('simB', 'histories of writing and reading and the locale of each step'),
    'X01': p('simB', 'tools, their inputs and placements of I/O faults while they run', quick=40),
    'M01': p('simB', 'assets of six kinds and placements of I/O faults, full disks and handle limits while they are written and read', quick=40),
    'M02': p('simB', 'crash points while a picture asset is written, and again while it is resumed', quick=40),
    'M03': p('simB', 'streams of sound, their cuttings into write calls, and rates with and without the synchronisation signal', quick=30),
    'K01': p('simB', 'key messages, their damage, foreign keys and placements of I/O faults while they are read', quick=40),
    'K02': p('simB', 'histories of reading a package, giving it keys and finding its assets, and placements of I/O faults meanwhile', quick=40),
    'C02': p('simA', 'histories of timestamps from a running, jumping and zone-changing clock, against a reference calendar'),
}

NOT_APPLICABLE = {
    'N01': 'a pure function of its arguments: no concurrency, time, I/O or second party for a simulator to control; needs numerical testing or proof',
    'N02': 'a pure function of its arguments: nothing for a simulator to schedule or to fail (T01 and T02 cover the shared caching of the tables)',
    'N03': 'pure conversions between values and text: nothing for a simulator to schedule or to fail',
    'N04': 'a pure function of format and values: nothing for a simulator to schedule or to fail',
    'N05': 'pure arithmetic: nothing for a simulator to schedule or to fail',
    'N06': 'pure parsing once the lists are loaded (loading them is part of D07): nothing for a simulator to schedule or to fail',
    'N07': 'a pure computation in OpenJPEG and FFmpeg: nothing for a simulator to schedule or to fail',
    'N08': 'depends only on the quality of the random source, which the simulator must replace; simulation would decide nothing about it',
}

LEVEL_NOTE = {
    'simA': 'seeded search, not exhaustive: real library code against a simulated kernel, clock and allocator; faults at every operation are within reach of the search',
    'simT': 'seeded search, not exhaustive: real library code with every memory access a scheduling point, at most eight preemptions per run, with a happens-before race detector',
    'simB': 'seeded search, not exhaustive: the whole library against a simulated kernel, with stand-ins for libcxml and asdcplib',
}

COMPONENTS = {
    'simA': {
        'real': 'libdcp: every source which needs neither libcxml nor asdcplib, and exceptions, locale_convert, array_data; Boost.Filesystem, Boost.Date_Time, libstdc++, glibc stdio buffering',
        'simulated': 'kernel file calls and disk, clock, time zone, failing operator new',
        'stub': 'asdcplib KM headers (types only)',
    },
    'simT': {
        'real': 'libdcp transfer functions, colour conversions, local time (compiled with a callback at every memory access); std::mutex semantics on a simulated lock',
        'simulated': 'thread scheduler, mutexes, static-initialisation guards, clock, failing operator new',
        'stub': 'none',
    },
    'simB': {
        'real': 'the whole of libdcp; Boost, libxml++/libxml2, xmlsec, OpenSSL, Xerces, libstdc++, glibc stdio buffering',
        'simulated': 'kernel file calls and disk, clock, random numbers, child processes',
        'stub': 'libcxml and asdcplib are replaced by the stand-ins in standin/ (not installed here)',
    },
}

ASSUMPTIONS = {
    'simA': ['the simulated kernel behaves as Linux does for the calls made', 'a crash loses the process, not data already accepted by the kernel'],
    'simT': ['sequentially consistent memory between scheduling points; a data race is itself reported'],
    'simB': ['the simulated kernel behaves as Linux does for the calls made', 'the stand-ins for libcxml and asdcplib behave as those libraries do where libdcp relies on it'],
}
