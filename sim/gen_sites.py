#!/usr/bin/env python3
"""Generates the NANO_LOG call sites used by the simulated programs.

usage: gen_sites.py OUT.cc cpp17|pre

Every site draws its arguments from the per-operation PRNG, formats the message
it is about to log with snprintf (the reference), and then executes the
NANO_LOG statement on a line of its own."""
import random, sys

out, flavour = sys.argv[1], sys.argv[2]
pre = flavour == 'pre'
R = random.Random(20240607)
L = []
n = 0
sites = []          # (function name)


def emit(s):
    L.extend(s.split('\n'))


emit('// generated by gen_sites.py -- do not edit')
emit('#include "sim.h"')
emit('#include "NanoLog.h"' if pre else '#include "NanoLogCpp17.h"')
emit('#include <stdio.h>')
emit('#include <stdint.h>')
emit('#include <stddef.h>')
emit('#pragma GCC diagnostic ignored "-Wformat"')
emit('#pragma GCC diagnostic ignored "-Wformat-truncation"')
emit('using namespace NanoLog::LogLevels;')
if not pre:
    emit('using namespace NanoLogInternal;')

LV = {'ERROR': 1, 'WARNING': 2, 'NOTICE': 3, 'DEBUG': 4}


# argument kinds: (C type, draw expression, record statement)
def arg(kind, i, maxs):
    v = f'a{i}'
    t = {
        'i': ('int', 'c.i32()', f"c.A('i', (u64)(i64){v});"),
        'u': ('unsigned', 'c.u32_()', f"c.A('I', {v});"),
        'l': ('long', 'c.i64_()', f"c.A('l', (u64){v});"),
        'ul': ('unsigned long', 'c.u64_()', f"c.A('L', {v});"),
        'll': ('long long', 'c.i64_()', f"c.A('q', (u64){v});"),
        'ull': ('unsigned long long', 'c.u64_()', f"c.A('Q', {v});"),
        'z': ('size_t', 'c.u64_()', f"c.A('L', {v});"),
        't': ('ptrdiff_t', 'c.i64_()', f"c.A('l', (u64){v});"),
        'j': ('intmax_t', 'c.i64_()', f"c.A('l', (u64){v});"),
        'h': ('short', 'c.i16()', f"c.A('h', (u64)(i64){v});"),
        'uh': ('unsigned short', 'c.u16_()', f"c.A('H', {v});"),
        'hh': ('signed char', 'c.i8()', f"c.A('b', (u64)(i64){v});"),
        'uhh': ('unsigned char', 'c.u8_()', f"c.A('B', {v});"),
        'c': ('char', 'c.chr()', f"c.A('i', (u64)(i64){v});"),
        'd': ('double', 'c.dbl()', f"c.AF({v});"),
        'f': ('float', 'c.flt()', f"c.AF({v});"),
        'ld': ('long double', '(long double)c.dbl() * 3', 'c.skip();'),
        'hd': ('short', 'c.i16()', f"c.A('i', (u64)(i64){v});"),            # integer promotions
        'uhd': ('unsigned short', 'c.u16_()', f"c.A('i', (u64)(i64){v});"),
        'hhd': ('signed char', 'c.i8()', f"c.A('i', (u64)(i64){v});"),
        'uhhd': ('unsigned char', 'c.u8_()', f"c.A('i', (u64)(i64){v});"),
        'bd': ('bool', '(c.i32() & 1) != 0', f"c.A('i', (u64)(i64){v});"),
        'ix': ('int', 'c.i32()', f"c.A('I', (u64)(unsigned){v});"),
        'lc': ('wint_t', '(wint_t)(32 + c.u8_() % 90)', 'c.skip();'),
        'p': ('const void*', 'c.ptr()', f"c.A('p', (u64){v});"),
        's': ('const char*', f'c.str({maxs})', f"c.AS({v}, -1);"),
        's5': ('const char*', f'c.str({maxs})', f"c.AS({v}, 5);"),
        's2': ('const char*', f'c.str({maxs})', f"c.AS({v}, 2);"),
        's0': ('const char*', f'c.str({maxs})', f"c.AS({v}, 0);"),
        'ls': ('const wchar_t*', f'c.wstr({maxs} / 4)', "c.skip();"),
        'uid': ('int', '(int)c.uid', f"c.A('i', (u64)(i64){v});"),
        'uidl': ('long', '(long)c.uid', f"c.A('l', (u64){v});"),
        'uidul': ('unsigned long', 'c.uid', f"c.A('L', {v});"),
        'uids': ('const char*', 'c.uids', f"c.AS({v}, -1);"),
        'w': ('int', 'c.width()', ''),                 # dynamic width
        'pr': ('int', 'c.prec()', ''),                 # dynamic precision
        'spr': ('const char*', f'c.str({maxs})', f"c.AS({v}, a{i-1});"),
        'us5': ('const char*', 'c.ustr(5)', f"c.AS({v}, 5);"),
        'us0': ('const char*', 'c.ustr(0)', f"c.AS({v}, 0);"),
        'uspr': ('const char*', f'c.ustr(a{i-1})', f"c.AS({v}, a{i-1});"),
        'lspr': ('const wchar_t*', f'c.wstr({maxs} / 4)', "c.skip();"),
    }[kind]
    return t


def site(level, fmt, kinds, static=False, maxs='c.maxStr() / 6', huge=None):
    """huge: the statement to execute instead where the output buffer is large enough
    for its dictionary entry (and only a few times: the reference texts add up)"""
    global n
    name = f'site{n}'
    emit(f'static void {name}(LogCtx &c) {{')
    if huge:
        emit('    if (apiOutput() >= 100000 && c.few()) {')
        body(level, huge, kinds, static, maxs)
        emit('    return; }')
    body(level, fmt, kinds, static, maxs)
    emit('}')
    sites.append(name)
    n += 1


def body(level, fmt, kinds, static, maxs):
    args = []
    for i, k in enumerate(kinds):
        ty, draw, rec = arg(k, i, maxs)
        emit(f'    {ty} a{i} = {draw};')
        if rec:
            emit('    ' + rec)
        args.append(f'a{i}')
    al = ''.join(', ' + a for a in args)
    emit(f'    c.len = snprintf(c.buf, c.cap, "{fmt}"{al});')
    emit(f'    c.mark({len(L) + 3}, {LV[level]}, {int(static)}, c.len);')
    emit('    c.begin();')
    emit(f'    NANO_LOG({level}, "{fmt}"{al});')
    emit('    c.end();')


# static (no-argument) sites: messages without any dynamic data
for i, f in enumerate(['static message number zero', 'static 100%% done, nothing to format',
                       'a', '', 'static: %%d is not a specifier', 'the quick brown fox jumps over the lazy dog again and again and again']):
    if pre and f == '':
        f = 'empty'
    site('NOTICE' if i != 2 else 'ERROR', f, [], static=True)
nStatic = n

V = [
    ('NOTICE', '<%d>', ['uid']),
    ('NOTICE', '<%d> int %d', ['uid', 'i']),
    ('WARNING', '<%d> u %u x %x X %X o %o', ['uid', 'u', 'u', 'u', 'u']),
    ('ERROR', '<%ld> long %ld %lu %lx', ['uidl', 'l', 'ul', 'ul']),
    ('NOTICE', 'll %lld %llu <%d> %llx', ['ll', 'ull', 'uid', 'ull']),
    ('NOTICE', '<%d> short %hd %hu byte %hhd %hhu', ['uid', 'h', 'uh', 'hh', 'uhh']),
    ('NOTICE', '<%d> size %zu diff %td max %jd', ['uid', 'z', 't', 'j']),
    ('NOTICE', '<%d> double %f %e %g %.3f', ['uid', 'd', 'd', 'd', 'd']),
    ('NOTICE', '<%d> float %f %g', ['uid', 'f', 'f']),
    ('NOTICE', '<%d> %a %10.4f %-12.3e|', ['uid', 'd', 'd', 'd']),
    ('NOTICE', '<%d> s=%s', ['uid', 's']),
    ('NOTICE', '%s <%d> %s', ['s', 'uid', 's']),
    ('NOTICE', '%s<%s>%s %d', ['s', 'uids', 's', 'i']),
    ('WARNING', '<%d> %.5s|%10s|%-10s|', ['uid', 's5', 's', 's']),
    ('NOTICE', '<%d> %s %d %s %ld %s', ['uid', 's', 'i', 's', 'l', 's']),
    ('NOTICE', '<%d> %p %s', ['uid', 'p', 's']),
    ('NOTICE', '<%d> %c%c%c', ['uid', 'c', 'c', 'c']),
    ('NOTICE', '<%d> 100%% of %d%% and %s%%', ['uid', 'i', 's']),
    ('NOTICE', '<%d> %*d|%-*d|', ['uid', 'w', 'i', 'w', 'i']),
    ('NOTICE', '<%d> %.*f|%*.*f|', ['uid', 'pr', 'd', 'w', 'pr', 'd']),
    ('NOTICE', '<%d> %.*s|%*s|', ['uid', 'pr', 'spr', 'w', 's']),
    ('NOTICE', '<%d> %+d % d %05d %#x %-8d|', ['uid', 'i', 'i', 'i', 'u', 'i']),
    ('NOTICE', '<%08d> %08lx %20ld', ['uid', 'ul', 'l']),
    ('DEBUG', '<%d> debug %d %s', ['uid', 'i', 's']),
    ('ERROR', '<%d> error %d %s', ['uid', 'i', 's']),
    ('WARNING', '<%lu> warn %d', ['uidul', 'i']),
    ('NOTICE', '<%d>' + ' %d' * 15, ['uid'] + ['i'] * 15),
    ('NOTICE', '<%d>' + ' %ld %s' * 6, ['uid'] + ['l', 's'] * 6),
    ('NOTICE', '<%d> %s%s%s%s', ['uid', 's', 's', 's', 's']),
    ('NOTICE', '<%d> t\\tab %d \\"quoted\\" %s', ['uid', 'i', 's']),
    ('NOTICE', '%s%s<%s>', ['s', 's', 'uids']),
    ('NOTICE', '<%d> %llu %llu %llu %llu %llu %llu %llu', ['uid'] + ['ull'] * 7),
    ('NOTICE', '<%d> %hhd %d %hd %ld %hhu %u %hu %lu', ['uid', 'hh', 'i', 'h', 'l', 'uhh', 'u', 'uh', 'ul']),
    ('NOTICE', '<%d> %ls!', ['uid', 'ls']),
    ('NOTICE', '<%d> %ls %s %d %ls', ['uid', 'ls', 's', 'i', 'ls']),
    ('NOTICE', '<%d> %i %F %E %G %A', ['uid', 'i', 'd', 'd', 'd', 'd']),
    ('DEBUG', '<%d> debug two %s', ['uid', 's']),
    ('NOTICE', '<%d> %.3ls %lc %ls', ['uid', 'ls', 'lc', 'ls']),
    ('NOTICE', '<%d> %.*ls|%d', ['uid', 'pr', 'lspr', 'i']),
    ('NOTICE', '<%d> unterminated %.5s|%.*s|', ['uid', 'us5', 'pr', 'uspr']),
    ('WARNING', '<%d> %.0s unterminated %*.*s %d', ['uid', 'us0', 'w', 'pr', 'uspr', 'i']),
    ('NOTICE', '<%d>' + ' %d' * 24, ['uid'] + ['i'] * 24),
    ('WARNING', '<%d>' + ' %ld %d %g' * 9 + ' %s', ['uid'] + ['l', 'i', 'd'] * 9 + ['s']),
    ('NOTICE', '<%d>' + ' %d' * 44, ['uid'] + ['i'] * 44),
    ('NOTICE', '<%d> ' + 'long format ' * 25 + '%d', ['uid', 'i']),
    ('NOTICE', '<%d> ' + 'longer format ' * 50 + '%s', ['uid', 's']),
    ('ERROR', '<%d> ' + 'still longer format ' * 75, ['uid']),
    ('ERROR', '<%d> error two %s %llu', ['uid', 's', 'ull']),
    ('NOTICE', '<%d> long double %Lf %Le %.3Lf %d', ['uid', 'ld', 'ld', 'ld', 'i']),
    ('NOTICE', '<%d> promoted %d %d %d %d %d %i', ['uid', 'hd', 'uhd', 'hhd', 'uhhd', 'bd', 'hd']),
    ('NOTICE', '<%d> %zx %jx %tx %lo %#llx %lX', ['uid', 'z', 'j', 't', 'ul', 'ull', 'ul']),
    ('NOTICE', '<%d> %.5d|%8.3d|%-8.5d|%+.0f|%#.0f|%5c|%-5c|', ['uid', 'i', 'i', 'i', 'd', 'd', 'c', 'c']),
    ('NOTICE', '<%d> %x %X %o of ints', ['uid', 'ix', 'ix', 'ix']),
    ('NOTICE', '<%d> %10.2s|%-*s|%*p|%20p|', ['uid', 's2', 'w', 's', 'w', 'p', 'p']),
    ('NOTICE', '%d%d%d<%d>%d%s%s', ['i', 'i', 'i', 'uid', 'i', 's', 's']),
    ('WARNING', '<%d> C:\\\\%d\\\\%s', ['uid', 'i', 's']),
]
if not pre:
    V += [
        ('NOTICE', '<%d> %.0s|%s', ['uid', 's0', 's']),
        ('NOTICE', '\\\\%d <%d> \\\\%s\\\\\\\\%ld', ['i', 'uid', 's', 'l']),
        ('NOTICE', '<%d> %.f|%5.d|%.s|%-6.e|%d', ['uid', 'd', 'i', 's0', 'd', 'i']),
    ]
for lv, f, k in V:
    site(lv, f, k)
if not pre:
    for k, w in enumerate((10230, 10250, 12000, 21000, 25000)):
        site('NOTICE', '<%d> not huge %d', ['uid', 'i'], huge='<%d> ' + f'huge format {k} '.ljust(w, 'h') + ' %d')
nVaried = n

# big strings, up to the largest allowed message
for lv, f, k in [('NOTICE', '<%d> big %s', ['uid', 's']), ('NOTICE', '<%d> %d big %s', ['uid', 'i', 's']),
                 ('WARNING', '%s<%d>', ['s', 'uid'])]:
    site(lv, f, k, maxs='c.maxStr()')
nBig = n

SP = [('<%d> simple {} v=%d', ['uid', 'i']), ('<%d> plain {}', ['uid']), ('<%d> named {} %s', ['uid', 's']),
      ('<%d> wide {} %ld %u', ['uid', 'l', 'u'])]
lv = ['NOTICE', 'NOTICE', 'NOTICE', 'WARNING', 'NOTICE', 'ERROR', 'NOTICE', 'DEBUG']
for i in range(60 if pre else 270):
    f, k = SP[i % 4]
    pad = 'p' * (R.randrange(60) if i % 16 == 0 else 900 + R.randrange(300) if i % 18 == 5 else 0)
    site(lv[i % 8], f.format('%03d' % i) + pad, k)

emit('typedef void (*SiteFn)(LogCtx &);')
emit('static SiteFn const table[] = {' + ', '.join(sites) + '};')
emit(f'const int simNumSites = {n}; const int simNumStatic = {nStatic}; const int simNumVaried = {nVaried}; const int simNumBig = {nBig};')
emit('void simSite(int s, LogCtx &c) { table[s](c); }')
emit('const char *simSiteFile() { return __FILE__; }')
open(out, 'w').write('\n'.join(L) + '\n')
