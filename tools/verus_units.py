"""Contracts for the functions the deductive layer verifies for all inputs and all iterations.

$0,$1.. are the function's parameters in order; in loop invariant candidates $V,$W are distinct
growing vectors of the function, $L another mutable local, $I/$E the counter and end of a counted
loop. Candidates are inferred, never trusted: one that the verifier does not prove is dropped.
"""
import os
REPO = os.environ.get('BINREAD_REPO', '/repo')
H = REPO + '/binread/src/'
ATTR = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]\n'
GEN = 'B: BinRead<Args = C>, C: Copy, R: Read + Seek'
OKEV = 'is_ok(final($R).tr()[j]->Read_out)'

NONE = 'ReadOptions { count: None, ..*$1 }'
COUNTED = [
    '$I == $V@.len()', '$I == $V@.len() + 1', '$I <= $E', '$V@.len() <= $E',
]


def counted(n):
    """the loop is counted some other way: up to, or down from, `n`"""
    return COUNTED + ['$V@.len() <= %s' % n, '$V@.len() + $L == %s' % n, '$L == $V@.len()', '$L <= %s' % n]



def trace(r, ev, extra=('0', '1', '2')):
    """candidates about a vector whose items are the history's last events"""
    c = ['extends(%s.tr(), g_tr)' % r]
    for k in extra:
        c.append('%s.tr().len() == g_tr.len() + $V@.len() + %s' % (r, k))
    c.append('forall|j: int| 0 <= j < $V@.len() ==> (#[trigger] %s.tr()[g_tr.len() + j]) == %s' % (r, ev('obf($V@[j])')))
    return c


def seq_read(ty, r, o, a, n):
    """ensures: `n` items read one after another; on failure nothing after the first failing read"""
    return '''
      extends(final(%(r)s).tr(), old(%(r)s).tr()),
      match r {
        Ok(v) => v@.len() == %(n)s && final(%(r)s).tr().len() == old(%(r)s).tr().len() + %(n)s
            && forall|j: int| 0 <= j < %(n)s ==> (#[trigger] final(%(r)s).tr()[old(%(r)s).tr().len() + j]) == (Ev::Read { ty: %(ty)s::ty(), o: %(o)s, a: %(ty)s::aobs(%(a)s), out: Out::Ok(obf(v@[j])) }),
        Err(e) => old(%(r)s).tr().len() < final(%(r)s).tr().len() <= old(%(r)s).tr().len() + %(n)s
            && final(%(r)s).tr().last() == (Ev::Read { ty: %(ty)s::ty(), o: %(o)s, a: %(ty)s::aobs(%(a)s), out: Out::Err(e) })
            && forall|j: int| old(%(r)s).tr().len() <= j < final(%(r)s).tr().len() - 1 ==> is_read(#[trigger] final(%(r)s).tr()[j], %(ty)s::ty(), %(o)s, %(ty)s::aobs(%(a)s)),
      }''' % dict(ty=ty, r=r, o=o, a=a, n=n)


PRO = '    let ghost g_tr = %s.tr();\n'


def read_ev(ty, o, a):
    return lambda x: '(Ev::Read { ty: %s::ty(), o: %s, a: %s::aobs(%s), out: Out::Ok(%s) })' % (ty, o, ty, a, x)


def rta_ev(x):
    return '(Ev::Rta { ty: T::ty(), endian: $2.endian, a: T::aobs($3), out: Out::Ok(%s) })' % x


UNITS = {}


def unit(name, props, file, feats, loc, **k):
    UNITS[name] = dict(name=name, props=props, file=H + file if not file.startswith('/') else file, feats=feats, loc=loc, **k)


def oks(r, pred):
    return ['forall|j: int| g_tr.len() <= j < %s.tr().len() ==> %s' % (r, pred('#[trigger] %s.tr()[j]' % r)),
            'forall|j: int| g_tr.len() <= j < %s.tr().len() - 1 ==> %s' % (r, pred('#[trigger] %s.tr()[j]' % r))]


def okrta(o, a):
    return lambda x: 'is_rta(%s, T::ty(), %s.endian, T::aobs(%s))' % (x, o, a)


unit('vec_read', ['C09'], 'binread_impls.rs', 'std', 'impl BinRead for Vec<B> :: read_options', prelude='read.rs',
     sig='pub fn vec_read<%s>($0: &mut R, $1: &ReadOptions, $2: C) -> (r: BinResult<Vec<B>>)' % GEN,
     spec='requires $1.count is Some ensures ' + seq_read('B', '$0', NONE, '$2', '$1.count->0'),
     pro=PRO % '$0' + '    let ghost g_o = *$1;\n',
     inv=counted('g_o.count->0') + trace('$0', read_ev('B', 'ReadOptions { count: None, ..g_o }', '$2')) + oks('$0', lambda x: 'is_read(%s, B::ty(), ReadOptions { count: None, ..g_o }, B::aobs($2))' % x) + ['*$L == (ReadOptions { count: None, ..g_o })', '$L == (ReadOptions { count: None, ..g_o })'],
     what='every count: exactly count items, each read once, in order, with the caller\'s options (count cleared) and arguments; the first failing item ends it with that error')

for nm, feats, loc in (('array_read_macro', 'std', 'macro binread_array_impl :: read_options'), ('array_read_const_generic', 'const_generics', 'impl BinRead for [B;N] :: read_options')):
    unit(nm, ['C09'], 'binread_impls.rs', feats, loc, prelude='read.rs',
         sig='pub fn %s<B: BinRead<Args = C> + DefaultV, C: Copy, R: Read + Seek, const N: usize>($0: &mut R, $1: &ReadOptions, $2: C) -> (r: BinResult<[B; N]>)' % nm,
         spec='ensures ' + seq_read('B', '$0', '*$1', '$2', 'N'),
         pro=PRO % '$0',
         inv=counted('N') + trace('$0', read_ev('B', '*$1', '$2')) + oks('$0', lambda x: 'is_read(%s, B::ty(), *$1, B::aobs($2))' % x) + [
             '$I <= N', '$0.tr().len() == g_tr.len() + $I',
             'forall|j: int| 0 <= j < $I ==> (#[trigger] $0.tr()[g_tr.len() + j]) == %s' % read_ev('B', '*$1', '$2')('obf($L@[j])')],
         what='every array length: as for Vec, with the caller\'s options unchanged')

UNTIL_COMMON = ['extends($1.tr(), g_tr)']
COND_PRE = 'requires forall|x: T| #[trigger] $0.requires((&x,)) '
UG = '<Reader: ReaderExt, T: BinRead<Args = Arg>, CondFn: Fn(&T) -> bool, Arg: Copy, Ret: FromItems<T>>'


def rtas(r, n, o, a):
    return '''forall|j: int| old(%(r)s).tr().len() <= j < final(%(r)s).tr().len() - 1 ==> is_rta(#[trigger] final(%(r)s).tr()[j], T::ty(), %(o)s.endian, T::aobs(%(a)s))''' % dict(r=r, o=o, a=a)


def until(name, fn, ok):
    unit(name, ['C10'], 'helpers.rs', 'std', 'fn ' + fn, prelude='read.rs',
         sig='pub fn %s%s($0: CondFn, $1: &mut Reader, $2: &ReadOptions, $3: Arg) -> (r: BinResult<Ret>)' % (name, UG),
         spec=COND_PRE + '''ensures extends(final($1).tr(), old($1).tr()), match r {
        Ok(v) => ({ let s = v.items(); %s }),
        Err(e) => old($1).tr().len() < final($1).tr().len() && final($1).tr().last() == (Ev::Rta { ty: T::ty(), endian: $2.endian, a: T::aobs($3), out: Out::Err(e) })
            && %s }''' % (ok, rtas('$1', None, '$2', '$3')),
         pro=PRO % '$1',
         inv=trace('$1', rta_ev) + oks('$1', okrta('$2', '$3')) + [
             '$1.tr().last() == %s' % rta_ev('obf($L)'),
             'forall|j: int| 0 <= j < $V@.len() ==> #[trigger] cond_is($0, $V@[j], false)',
             'forall|j: int| 0 <= j < $V@.len() - 1 ==> #[trigger] cond_is($0, $V@[j], false)',
             '$V@.len() > 0', 'cond_is($0, $V@.last(), true)', '$0.ensures((&$L,), true)',
         ],
         what='any number of items and any predicate')


SFRESH = 'forall|j: int| 0 <= j < s.len() ==> (#[trigger] final($1).tr()[old($1).tr().len() + j]) == %s' % rta_ev('obf(s[j])')
until('until', 'until', '''s.len() > 0 && final($1).tr().len() == old($1).tr().len() + s.len() && (%s)
            && (forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] cond_is($0, s[j], false)) && cond_is($0, s.last(), true)''' % SFRESH)
until('until_exclusive', 'until_exclusive', '''final($1).tr().len() == old($1).tr().len() + s.len() + 1 && (%s)
            && (forall|j: int| 0 <= j < s.len() ==> #[trigger] cond_is($0, s[j], false))
            && (exists|x: T| #[trigger] $0.ensures((&x,), true) && final($1).tr().last() == %s)''' % (SFRESH, rta_ev('x.obs()')))


def r3(s):
    """helpers without a predicate: parameters shift by one"""
    return s.replace('$1', '$A').replace('$2', '$B').replace('$3', '$C').replace('$A', '$0').replace('$B', '$1').replace('$C', '$2')


unit('until_eof', ['C10'], 'helpers.rs', 'std', 'fn until_eof', prelude='read.rs',
     sig='pub fn until_eof<Reader: ReaderExt, T: BinRead<Args = Arg>, Arg: Copy, Ret: FromItems<T>>($0: &mut Reader, $1: &ReadOptions, $2: Arg) -> (r: BinResult<Ret>)',
     spec='ensures ' + r3('''extends(final($1).tr(), old($1).tr()), old($1).tr().len() < final($1).tr().len(), match r {
        Ok(v) => ({ let s = v.items(); final($1).tr().len() == old($1).tr().len() + s.len() + 1 && (%s)
            && is_eof(final($1).tr().last()->Rta_out->Err_0) && final($1).tr().last() == (Ev::Rta { ty: T::ty(), endian: $2.endian, a: T::aobs($3), out: Out::Err(final($1).tr().last()->Rta_out->Err_0) }) }),
        Err(e) => !is_eof(e) && final($1).tr().last() == (Ev::Rta { ty: T::ty(), endian: $2.endian, a: T::aobs($3), out: Out::Err(e) })
            && %s }''' % (SFRESH, rtas('$1', None, '$2', '$3'))),
     pro=PRO % '$0',
     inv=[r3(x) for x in trace('$1', rta_ev) + oks('$1', okrta('$2', '$3'))] + [
         '$0.tr().last() == (Ev::Rta { ty: T::ty(), endian: $1.endian, a: T::aobs($2), out: out($L) })',
         'is_eof($0.tr().last()->Rta_out->Err_0)', '$0.tr().last() == (Ev::Rta { ty: T::ty(), endian: $1.endian, a: T::aobs($2), out: Out::Err($0.tr().last()->Rta_out->Err_0) })',
         r3('$1.tr().last() == %s' % rta_ev('obf($L)'))],
     what='any number of items; end of input ends it successfully, any other failure is returned')

unit('helper_count', ['C09'], 'helpers.rs', 'std', 'fn count', prelude='read.rs',
     sig='pub fn helper_count<Reader: ReaderExt, T: BinRead<Args = Arg>, Arg: Copy, Ret: FromItems<T>>($0: usize, $1: &mut Reader, $2: &ReadOptions, $3: Arg) -> (r: BinResult<Ret>)',
     spec='''ensures extends(final($1).tr(), old($1).tr()), match r {
        Ok(v) => ({ let s = v.items(); s.len() == $0 && final($1).tr().len() == old($1).tr().len() + s.len() && (%s) }),
        Err(e) => old($1).tr().len() < final($1).tr().len() <= old($1).tr().len() + $0 && final($1).tr().last() == (Ev::Rta { ty: T::ty(), endian: $2.endian, a: T::aobs($3), out: Out::Err(e) })
            && %s }''' % (SFRESH, rtas('$1', None, '$2', '$3')),
     pro=PRO % '$1',
     inv=counted('$0') + trace('$1', rta_ev) + oks('$1', okrta('$2', '$3')),
     what='every n: exactly n items')

unit('read_bytes', ['C09'], 'helpers.rs', 'std', 'fn read_bytes', prelude='read.rs',
     sig='pub fn read_bytes<R: Read + Seek>($0: &mut R, $1: &ReadOptions, $2: ()) -> (r: BinResult<Vec<u8>>)',
     spec='''requires $1.count is Some
      ensures extends(final($0).tr(), old($0).tr()), match r {
        Ok(v) => v@.len() == $1.count->0 && v@ =~= got(final($0).tr(), old($0).tr().len() as int)
            && forall|j: int| old($0).tr().len() <= j < final($0).tr().len() ==> (#[trigger] final($0).tr()[j]) is Bytes,
        Err(e) => old($0).tr().len() < final($0).tr().len() && (final($0).tr().last() matches Ev::BytesErr { n, e: x } && e == Error::Io(x) && got(final($0).tr(), old($0).tr().len() as int).len() + n <= $1.count->0) }''',
     pro='    broadcast use got_push;\n' + PRO % '$0' + '    assert(got(g_tr, g_tr.len() as int) =~= Seq::empty());\n',
     inv=['extends($0.tr(), g_tr)', '$V@ =~= got($0.tr(), g_tr.len() as int)', '$V@.len() <= $1.count->0',
          'forall|j: int| g_tr.len() <= j < $0.tr().len() ==> (#[trigger] $0.tr()[j]) is Bytes'],
     what='every count: the bytes returned are exactly the bytes the reader delivered, in order, and never more than count are asked for')


def sep_ok(n, trailing):
    return '''
      extends(final($0).tr(), old($0).tr()), match r {
        Ok(v) => v.data@.len() == $1.count->0 && v.seperators@.len() == %(m)s && final($0).tr().len() == old($0).tr().len() + v.data@.len() + v.seperators@.len()
            && (forall|j: int| 0 <= j < v.data@.len() ==> (#[trigger] obf(v.data@[j])) == obf(v.data@[j]) && final($0).tr()[old($0).tr().len() + 2 * j] == (Ev::Read { ty: T::ty(), o: *$1, a: T::aobs($2), out: Out::Ok(obf(v.data@[j])) }))
            && (forall|j: int| 0 <= j < v.seperators@.len() ==> (#[trigger] obf(v.seperators@[j])) == obf(v.seperators@[j]) && final($0).tr()[old($0).tr().len() + 2 * j + 1] == (Ev::Read { ty: P::ty(), o: *$1, a: P::aobs(()), out: Out::Ok(obf(v.seperators@[j])) })),
        Err(e) => old($0).tr().len() < final($0).tr().len() && (final($0).tr().last() matches Ev::Read { ty, o, a, out } && out == Out::Err(e))
            && forall|j: int| old($0).tr().len() <= j < final($0).tr().len() - 1 ==> is_ok((#[trigger] final($0).tr()[j])->Read_out) }''' % dict(m=n)


for nm, m, k in (('separated', 'if $1.count->0 == 0 { 0int } else { $1.count->0 - 1 }', 0), ('separated_trailing', '$1.count->0', 1)):
    unit(nm, ['C11'], 'punctuated.rs', 'std', 'impl Punctuated<T,P> :: ' + nm, prelude='read.rs', selfty='Punctuated',
         sig='pub fn %s<C: Copy, T: BinRead<Args = C>, P: BinRead<Args = ()>, R: Read + Seek>($0: &mut R, $1: &ReadOptions, $2: C) -> (r: BinResult<Punctuated<T, P>>)' % nm,
         spec='requires $1.count is Some ensures ' + sep_ok(m, k),
         pro=PRO % '$0',
         inv=counted('$1.count->0') + ['extends($0.tr(), g_tr)', '$0.tr().len() == g_tr.len() + $V@.len() + $W@.len()',
              '$V@.len() == $W@.len()', '$V@.len() == $W@.len() + 1', '$V@.len() == 0 ==> $W@.len() == 0',
              '$W@.len() == if $I == $E && $E > 0 { $I - 1 } else { $I as int }',
              '$W@.len() == if $I == 0 { 0int } else { $I - 1 }',
              'forall|j: int| 0 <= j < $V@.len() ==> (#[trigger] obf($V@[j])) == obf($V@[j]) && $0.tr()[g_tr.len() + 2 * j] == (Ev::Read { ty: T::ty(), o: *$1, a: T::aobs($2), out: Out::Ok(obf($V@[j])) })',
              'forall|j: int| 0 <= j < $W@.len() ==> (#[trigger] obf($W@[j])) == obf($W@[j]) && $0.tr()[g_tr.len() + 2 * j + 1] == (Ev::Read { ty: P::ty(), o: *$1, a: P::aobs(()), out: Out::Ok(obf($W@[j])) })',
              'forall|j: int| g_tr.len() <= j < $0.tr().len() ==> is_ok((#[trigger] $0.tr()[j])->Read_out)'],
         what='every count: items and separators strictly alternate, kept in order, in the right list')

unit('nul_string', ['C12'], 'strings.rs', 'std', 'impl BinRead for Vec<NonZeroU8> :: read_options', prelude='read.rs',
     sig='pub fn nul_string<R: Read + Seek>($0: &mut R, $1: &ReadOptions, $2: ()) -> (r: BinResult<Vec<NonZeroU8>>)',
     spec='''ensures extends(final($0).tr(), old($0).tr()), old($0).tr().len() < final($0).tr().len(),
      forall|j: int| old($0).tr().len() <= j < final($0).tr().len() - 1 ==> (#[trigger] final($0).tr()[j]) is Byte && final($0).tr()[j]->Byte_b != 0,
      match r {
        Ok(v) => final($0).tr().len() == old($0).tr().len() + v@.len() + 1 && (forall|j: int| 0 <= j < v@.len() ==> (#[trigger] final($0).tr()[old($0).tr().len() + j]) == (Ev::Byte { b: vof(v@[j]) }))
            && (final($0).tr().last() == (Ev::Byte { b: 0 }) || final($0).tr().last() is Eof),
        Err(e) => final($0).tr().last() matches Ev::ByteErr { e: x } && e == Error::Io(x) }''',
     pro=PRO % '$0',
     inv=['extends($0.tr(), g_tr)', '$0.tr().len() == g_tr.len() + $V@.len()', '$0.tr().len() == g_tr.len() + $V@.len() + 1',
          'forall|j: int| 0 <= j < $V@.len() ==> (#[trigger] $0.tr()[g_tr.len() + j]) == (Ev::Byte { b: vof($V@[j]) })',
          'forall|j: int| g_tr.len() <= j < $0.tr().len() ==> (#[trigger] $0.tr()[j]) is Byte && $0.tr()[j]->Byte_b != 0',
          'forall|j: int| g_tr.len() <= j < $0.tr().len() - 1 ==> (#[trigger] $0.tr()[j]) is Byte && $0.tr()[j]->Byte_b != 0',
          '($0.tr().last() == (Ev::Byte { b: 0 }) || $0.tr().last() is Eof)', 'g_tr.len() < $0.tr().len()'],
     what='any length: the bytes before the first NUL, in order; the NUL is consumed and nothing after it; an I/O error is returned')

unit('nul_wide_string', ['C12'], 'strings.rs', 'std', 'impl BinRead for Vec<NonZeroU16> :: read_options', prelude='read.rs',
     sig='pub fn nul_wide_string<R: Read + Seek>($0: &mut R, $1: &ReadOptions, $2: ()) -> (r: BinResult<Vec<NonZeroU16>>)',
     spec='''ensures extends(final($0).tr(), old($0).tr()), old($0).tr().len() < final($0).tr().len(),
      match r {
        Ok(v) => final($0).tr().len() == old($0).tr().len() + v@.len() + 1 && (forall|j: int| 0 <= j < v@.len() ==> (#[trigger] final($0).tr()[old($0).tr().len() + j]) == (Ev::Read { ty: 16, o: *$1, a: 0, out: Out::Ok(vof(v@[j]) as int) }))
            && (forall|j: int| 0 <= j < v@.len() ==> (#[trigger] vof(v@[j])) != 0) && final($0).tr().last() == (Ev::Read { ty: 16, o: *$1, a: 0, out: Out::Ok(0) }),
        Err(e) => final($0).tr().last() == (Ev::Read { ty: 16, o: *$1, a: 0, out: Out::Err(e) }) }''',
     pro=PRO % '$0',
     inv=['extends($0.tr(), g_tr)', '$0.tr().len() == g_tr.len() + $V@.len()', '$0.tr().len() == g_tr.len() + $V@.len() + 1',
          'forall|j: int| 0 <= j < $V@.len() ==> (#[trigger] $0.tr()[g_tr.len() + j]) == (Ev::Read { ty: 16, o: *$1, a: 0, out: Out::Ok(vof($V@[j]) as int) })',
          'forall|j: int| 0 <= j < $V@.len() ==> (#[trigger] vof($V@[j])) != 0',
          '$0.tr().last() == (Ev::Read { ty: 16, o: *$1, a: 0, out: Out::Ok(obf($L)) })',
          '$0.tr().last() == (Ev::Read { ty: 16, o: *$1, a: 0, out: Out::Ok(0) })'],
     what='any length: the units before the first zero unit, each read with the caller\'s options')

for nm, ty, n, w in (('nul_string_from', 'NullString', 'u8', 'NonZeroU8'), ('nul_wide_string_from', 'NullWideString', 'u16', 'NonZeroU16')):
    unit(nm, ['C12'], 'strings.rs', 'std', 'impl From<Vec<%s>> for %s :: from' % (w, ty), prelude='read.rs', selfty=ty,
         sig='pub fn %s($0: Vec<%s>) -> (r: %s)' % (nm, w, ty),
         spec='ensures r.0@.len() == $0@.len(), forall|j: int| 0 <= j < $0@.len() ==> r.0@[j] == (#[trigger] $0@[j]).v()',
         pro='', inv=['$I == $V@.len()', '$I <= $0@.len()', 'forall|j: int| 0 <= j < $V@.len() ==> obf($V@[j]) == (#[trigger] $0@[j]).v()'],
         what='any length: the same units, in order')

for nm, feats, loc, ty in (('vec_after_parse', 'std', 'impl BinRead for Vec<B> :: after_parse', 'Vec<B>'),
                           ('array_after_parse_macro', 'std', 'macro binread_array_impl :: after_parse', '[B; N]'),
                           ('array_after_parse_const_generic', 'const_generics', 'impl BinRead for [B;N] :: after_parse', '[B; N]')):
    unit(nm, ['C14'], 'binread_impls.rs', feats, loc, prelude='read.rs',
         sig='pub fn %s<%s, const N: usize>($0: &mut %s, $1: &mut R, $2: &ReadOptions, $3: C) -> (r: BinResult<()>)' % (nm, GEN, ty),
         spec='''ensures final($0)@.len() == old($0)@.len(), extends(final($1).tr(), old($1).tr()), match r {
        Ok(_) => final($1).tr().len() == old($1).tr().len() + old($0)@.len()
            && forall|j: int| 0 <= j < old($0)@.len() ==> (#[trigger] final($1).tr()[old($1).tr().len() + j]) == (Ev::After { ty: B::ty(), before: obf(old($0)@[j]), after: obf(final($0)@[j]), o: *$2, a: B::aobs($3), out: Out::Ok(0) }),
        Err(e) => ({ let n = final($1).tr().len() - old($1).tr().len() - 1; 0 <= n < old($0)@.len()
            && (forall|j: int| 0 <= j < n ==> (#[trigger] final($1).tr()[old($1).tr().len() + j]) == (Ev::After { ty: B::ty(), before: obf(old($0)@[j]), after: obf(final($0)@[j]), o: *$2, a: B::aobs($3), out: Out::Ok(0) }))
            && (forall|j: int| n < j < old($0)@.len() ==> final($0)@[j] == old($0)@[j])
            && final($1).tr().last() == (Ev::After { ty: B::ty(), before: obf(old($0)@[n]), after: obf(final($0)@[n]), o: *$2, a: B::aobs($3), out: Out::Err(e) }) }) }''',
         pro=PRO % '$1' + '    let ghost g_s = $0@;\n',
         inv=['extends($1.tr(), g_tr)', '$0@.len() == g_s.len()', '$I <= g_s.len()', '$1.tr().len() == g_tr.len() + $I',
              'forall|j: int| $I <= j < g_s.len() ==> $0@[j] == g_s[j]',
              'forall|j: int| 0 <= j < $I ==> (#[trigger] $1.tr()[g_tr.len() + j]) == (Ev::After { ty: B::ty(), before: obf(g_s[j]), after: obf($0@[j]), o: *$2, a: B::aobs($3), out: Out::Ok(0) })'],
         what='every length: each item postprocessed exactly once, in order, with the options and arguments given; the first failure ends it')

unit('read_exact', ['C19'], 'io/no_std.rs', '', 'trait Read :: read_exact', prelude='io.rs',
     sig='pub fn read_exact<R: Read>($0: &mut R, b0: &mut [u8]) -> (r: Result<()>)', nparams=2,
     spec='''ensures final(b0)@.len() == old(b0)@.len(), extends(final($0).tr(), old($0).tr()),
      match r {
        Ok(_) => final(b0)@ =~= got(final($0).tr(), old($0).tr().len() as int) && (forall|i: int| old($0).tr().len() <= i < final($0).tr().len() ==> live(#[trigger] final($0).tr()[i])),
        Err(e) => final($0).tr().len() > old($0).tr().len() && !live(final($0).tr().last())
            && got(final($0).tr(), old($0).tr().len() as int).len() < old(b0)@.len()
            && (forall|i: int| old($0).tr().len() <= i < final($0).tr().len() - 1 ==> live(#[trigger] final($0).tr()[i]))
            && match final($0).tr().last() { Ev::Ok(_) => e.skind() == ErrorKind::UnexpectedEof, Ev::Err(x) => e == x } }''',
     pro='    broadcast use got_push;\n    let ghost g_tr = $0.tr();\n    let ghost l0 = b0@.len();\n    let mut $1 = b0;\n    assert(got(g_tr, g_tr.len() as int) =~= Seq::empty());\n',
     inv=['extends($0.tr(), g_tr)', 'got($0.tr(), g_tr.len() as int).len() + $1@.len() == l0', 'final(b0)@ == got($0.tr(), g_tr.len() as int) + final($1)@',
          'forall|i: int| g_tr.len() <= i < $0.tr().len() ==> live(#[trigger] $0.tr()[i])',
          'forall|i: int| g_tr.len() <= i < $0.tr().len() - 1 ==> live(#[trigger] $0.tr()[i])',
          '$1@.len() == 0 ==> forall|i: int| g_tr.len() <= i < $0.tr().len() ==> live(#[trigger] $0.tr()[i])',
          '$1@.len() > 0 ==> !live($0.tr().last()) && $0.tr().last() is Ok && $0.tr().len() > g_tr.len()',
          '$1@.len() == l0', '$L <= l0', 'got($0.tr(), g_tr.len() as int) =~= $1@.take($L as int)', 'got($0.tr(), g_tr.len() as int).len() == $L', '$L < l0', 'final(b0)@ == final($1)@',
          '$L < l0 ==> !live($0.tr().last()) && $0.tr().last() is Ok && $0.tr().len() > g_tr.len()', '$L == l0 ==> forall|i: int| g_tr.len() <= i < $0.tr().len() ==> live(#[trigger] $0.tr()[i])'],
     what='any buffer length and any pattern of short reads and interruptions: Ok exactly when every byte was delivered, in order; a zero read is UnexpectedEof; another error is returned as it is')

unit('bytes_next', ['C19', 'C12'], 'io/no_std.rs', '', 'impl Iterator for Bytes<R> :: next', prelude='io.rs',
     sig='pub fn bytes_next<R: Read>($0: &mut Bytes<R>) -> (r: Option<Result<u8>>)',
     spec='''ensures extends(final($0).inner.tr(), old($0).inner.tr()), old($0).inner.tr().len() < final($0).inner.tr().len(),
      (forall|i: int| old($0).inner.tr().len() <= i < final($0).inner.tr().len() - 1 ==> interrupted(#[trigger] final($0).inner.tr()[i])),
      match r {
        None => final($0).inner.tr().last() is Ok && final($0).inner.tr().last()->Ok_0.len() == 0,
        Some(Ok(b)) => final($0).inner.tr().last() is Ok && final($0).inner.tr().last()->Ok_0.len() == 1 && final($0).inner.tr().last()->Ok_0[0] == b,
        Some(Err(e)) => final($0).inner.tr().last() == Ev::Err(e) && e.skind() != ErrorKind::Interrupted }''',
     pro='    let ghost g_tr = $0.inner.tr();\n',
     inv=['extends($0.inner.tr(), g_tr)', 'forall|i: int| g_tr.len() <= i < $0.inner.tr().len() ==> interrupted(#[trigger] $0.inner.tr()[i])'],
     what='any number of interruptions: one byte, or the end of input, or the error the reader gave')

unit('cursor_read', ['C18'], 'io/cursor.rs', '', 'impl Read for Cursor<T> :: read', prelude='io.rs',
     sig='pub fn cursor_read<T: AsBytes>($0: &mut Cursor<T>, $1: &mut [u8]) -> (r: Result<usize>)',
     spec='''requires old($0).inner.bytes().len() <= usize::MAX
      ensures r is Ok, final($0).inner == old($0).inner, final($1)@.len() == old($1)@.len(),
        ({ let n = r->Ok_0 as int; let d = old($0).inner.bytes(); let p = old($0).pos as int;
           &&& n == (if p >= d.len() { 0int } else if d.len() - p < old($1)@.len() { d.len() - p } else { old($1)@.len() as int })
           &&& final($0).pos == p + n
           &&& n > 0 ==> final($1)@.take(n) =~= d.subrange(p, p + n)
           &&& final($1)@.skip(n) =~= old($1)@.skip(n) })''',
     pro='', inv=[], what='any data length, position and buffer length')

unit('cursor_seek', ['C18'], 'io/cursor.rs', '', 'impl Seek for Cursor<T> :: seek', prelude='io.rs',
     sig='pub fn cursor_seek<T: AsBytes>($0: &mut Cursor<T>, $1: SeekFrom) -> (r: Result<u64>)',
     spec='''requires old($0).inner.bytes().len() <= usize::MAX
      ensures final($0).inner == old($0).inner, ({ let g = goal($1, old($0).pos as int, old($0).inner.bytes().len() as int);
        match r { Ok(p) => p == g && final($0).pos == g, Err(e) => (g < 0 || g > u64::MAX) && final($0).pos == old($0).pos && e.skind() == ErrorKind::InvalidInput } })''',
     pro='    assert(forall|y: i64| y < 0 ==> #[trigger] (y as u64) == (y + 0x1_0000_0000_0000_0000)) by(bit_vector);\n', inv=[], what='any data length, position and target')

unit('align', ['C15'], REPO + '/binread_derive/src/codegen/read_options/struct.rs', '', 'quoted map_align', prelude='align.rs', nparams=0,
     sig='pub fn align_block<R: Seek>(READER: &mut R, align: i64) -> (r: BinResult<()>)',
     spec='''requires align > 0, 0 <= old(READER).at() <= i64::MAX
      ensures match r { Ok(_) => final(READER).at() == up(old(READER).at(), align as int), Err(_) => true }''',
     pro='    proof { up_ok(READER.at(), align as int); }\n', epi='', unitbody=True, inv=[], what='every alignment of 1 and more, every position up to i64::MAX: the first multiple at or after the position (up_ok, up_unique)')

# --- template units: the code the derive emits, for every declaration -------------------------
D = REPO + '/binread_derive/src/codegen/read_options'
NEXT = 'final(r).no() == old(r).no(), final(r).len() == old(r).len(), pos_ok(final(r).at()), final(r).tr() == old(r).tr().push(Ev::Code { what: %d, i: %s, from: old(r).at(), to: final(r).at(), out: %s(x) })'


def code(name, what, stmt=False, rep=False, still=False):
    """a piece of generated code put into the template: it may do anything with the reader"""
    return '#[verifier::external_body] pub fn hole_%s<R: Seek>(r: &mut R%s) -> (x: BinResult<%s>) ensures %s%s { unimplemented!() }\n' % (
        name, ', i: usize' if rep else '', '()' if stmt else 'Val', NEXT % (what, 'i as int' if rep else '0', 'out0' if stmt else 'out'), ', final(r).at() == old(r).at()' if still else '')


def value(name, ty):
    """an expression put into the template"""
    return 'pub uninterp spec fn s_%s() -> %s;\n#[verifier::external_body] pub fn hole_%s() -> (x: %s) ensures x == s_%s() { unimplemented!() }\n' % (name, ty, name, ty, name)


PRE = ['extends(READER.tr(), $P)', 'READER.tr().len() == $P.len() + $I', 'forall|j: int| $P.len() <= j < READER.tr().len() ==> good(#[trigger] READER.tr()[j])', '$I <= __n', 'READER.no() == g_no']
G = '    let ghost g_tr = READER.tr();\n'
T0, TF = 'old(READER).tr()', 'final(READER).tr()'

unit('tmpl_wrapper', ['C02'], D + '.rs', 'std', 'template fn generate | inner?', prelude='tmpl.rs', nparams=0,
     sig='pub fn wrapper<R: Seek>(READER: &mut R) -> (r: BinResult<Val>)', holes=code('inner', 1),
     spec='''ensures match r {
        Ok(v) => %(f)s == %(o)s.push(Ev::Code { what: 1, i: 0, from: old(READER).at(), to: final(READER).at(), out: Out::V(v) }),
        Err(e) => (final(READER).at() == old(READER).at() && %(f)s.len() == %(o)s.len() + 1 && outcome(%(f)s.last()) == Out::Err(e))
            || (refused(*final(READER), *old(READER), e) && match final(READER).no().last().goal { Some(p) => p == old(READER).at(), None => final(READER).at() == old(READER).at() }) }''' % dict(o=T0, f=TF),
     pro=G, inv=[], what='every derived type, whatever its body does with the reader: an error leaves the reader where the read began (or is the reader\'s refusal of exactly that seek), a value is passed on with the position the body left')

for nm, k, ok in (('tmpl_data_enum', 1, 'e matches BIN_ERROR::EnumErrors { pos, variant_errors: l } && pos == POS && l@.len() == __n && forall|j: int| 0 <= j < __n ==> (#[trigger] l@[j]).0@ == name_of(j) && Out::Err(l@[j].1) == outcome(%s[%s.len() + j])' % (TF, T0)),
                  ('tmpl_data_enum_unexpected', 0, 'e == (BIN_ERROR::NoVariantMatch { pos: POS })')):
    unit(nm, ['C07'], D + '/enum.rs', 'std', 'template fn generate_data_enum | return_all_errors=%d;body?;name!' % k, prelude='tmpl.rs', nparams=0,
         sig='pub fn data_enum<R: Seek>(READER: &mut R, POS: u64, __n: usize) -> (r: BinResult<Val>)',
         holes=code('body', 1, rep=True) + '#[verifier::external_body] pub fn hole_name(i: usize) -> (x: &\'static str) ensures x@ == name_of(i as int) { unimplemented!() }\n',
         spec='''requires old(READER).at() == POS ensures extends(%(f)s, %(o)s), %(f)s.len() <= %(o)s.len() + __n,
      forall|j: int| %(o)s.len() <= j < %(f)s.len() ==> is_code(#[trigger] %(f)s[j], 1, j - %(o)s.len()) && from(%(f)s[j]) == POS,
      forall|j: int| %(o)s.len() <= j < %(f)s.len() - 1 ==> outcome(#[trigger] %(f)s[j]) is Err,
      match r {
        Ok(v) => %(f)s.len() > %(o)s.len() && outcome(%(f)s.last()) == Out::V(v) && final(READER).at() == to(%(f)s.last()),
        Err(e) => (%(f)s.len() > %(o)s.len() ==> outcome(%(f)s.last()) is Err) && ((%(f)s.len() == %(o)s.len() + __n && final(READER).no() == old(READER).no() && (%(ok)s))
            || (refused(*final(READER), *old(READER), e) && final(READER).no().last().goal == Some(POS as int))) }''' % dict(o=T0, f=TF, ok=ok),
         pro=G + '    let ghost g_no = READER.no();\n',
         inv=['extends(READER.tr(), g_tr)'] + PRE + ['READER.tr().len() == g_tr.len() + $I', 'READER.at() == POS',
              'forall|j: int| g_tr.len() <= j < READER.tr().len() ==> is_code(#[trigger] READER.tr()[j], 1, j - g_tr.len()) && from(READER.tr()[j]) == POS',
              'forall|j: int| g_tr.len() <= j < READER.tr().len() ==> outcome(#[trigger] READER.tr()[j]) is Err',
              '$V@.len() == $I', 'forall|j: int| 0 <= j < $V@.len() ==> (#[trigger] $V@[j]).0@ == name_of(j) && Out::Err($V@[j].1) == outcome(READER.tr()[g_tr.len() + j])'],
         what='any number of variants, whatever each does: tried in order, each from the start, the first success is the result; else ' + ('every variant\'s name and error in order' if k else 'NoVariantMatch at the start position'))

unit('tmpl_fields', ['C14', 'C03'], D + '/struct.rs', 'std', 'template impl StructGenerator :: read_fields | self.st=1;prelude?;value.is_empty()=0;read_fields:skip;unit'.replace('read_fields:skip;', ''), prelude='tmpl.rs', nparams=0, unitbody=True,
     sig='pub fn fields<R: Seek>(READER: &mut R, __n: usize) -> (r: BinResult<()>)',
     holes=code('prelude', 1, stmt=True) + code('generate_field', 2, stmt=True, rep=True) + code('generate_after_parse', 3, stmt=True, rep=True),
     spec='''ensures extends(%(f)s, %(o)s), %(o)s.len() < %(f)s.len() <= %(o)s.len() + 1 + 2 * __n || (r is Err && %(f)s.len() == %(o)s.len()),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() ==> ({ let k = j - %(o)s.len(); is_code(#[trigger] %(f)s[j], if k == 0 { 1 } else if k <= __n { 2 } else { 3 }, if k == 0 { 0 } else if k <= __n { k - 1 } else { k - 1 - __n }) }),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() - 1 ==> good(#[trigger] %(f)s[j]),
      match r {
        Ok(_) => %(f)s.len() == %(o)s.len() + 1 + 2 * __n && good(%(f)s.last()) && final(READER).at() == to(%(f)s[%(o)s.len() + __n]),
        Err(e) => outcome(%(f)s.last()) == Out::Err(e) || refused(*final(READER), *old(READER), e) }''' % dict(o=T0, f=TF),
     pro=G + '    let ghost g_no = READER.no();\n',
     inv=PRE + ['READER.at() == to(READER.tr().last())',
         
          'forall|j: int| g_tr.len() <= j < READER.tr().len() ==> good(#[trigger] READER.tr()[j])',
          'forall|j: int| g_tr.len() <= j < READER.tr().len() ==> ({ let k = j - g_tr.len(); is_code(#[trigger] READER.tr()[j], if k == 0 { 1 } else if k <= __n { 2 } else { 3 }, if k == 0 { 0 } else if k <= __n { k - 1 } else { k - 1 - __n }) })'],
     what='any number of fields, whatever reading and postprocessing each does: prelude, every field in order, then every postprocessing step in order, and the reader ends where the fields ended; the first error is the error')


APPLY = '#[verifier::external_body] pub fn hole_%s<R: Seek, T: IsVal>(r: &mut R, v: T) -> (x: %s) ensures final(r).no() == old(r).no(), final(r).len() == old(r).len(), final(r).at() == old(r).at(), final(r).tr() == old(r).tr().push(Ev::Apply { what: %d, arg: v.v(), at: old(r).at(), %s }) { unimplemented!() }\n'
MAPS = ['', APPLY % ('map', 'Val', 1, 'out: Out::V(x), e: None'), APPLY % ('try_map', 'core::result::Result<Val, MapErr>', 2, 'out: (match x { Ok(v) => Out::V(v), Err(_) => Out::Unit }), e: (match x { Ok(_) => None, Err(e) => Some(e) })')]


def field(name, props, what, cond=0, restore=0, try_=0, magic=0, sb=0, pb=0, ab=0, ps=0, pa=0, aa=0, end='inherit', off=0, cnt=0, now=0, map_=0, parser=0, calc=0):
    """The code for one field, whatever its type, its directives' values and its assertions are."""
    ep = {'inherit': 'CondEndian::Inherited~', 'big': 'CondEndian::Fixed(Endian::Big)~', 'little': 'CondEndian::Fixed(Endian::Little)~',
          'cond_big': 'CondEndian::Cond(endian,condition)~;Endian::Big~', 'cond_little': 'CondEndian::Cond(endian,condition)~;Endian::Little~'}[end]
    S = ['letSome(cond)=&self.field.if_cond=%d' % cond, 'self.field.restore_position=%d' % restore, 'self.field.generated_value()=%d' % calc, 'self.field.do_try=%d' % try_, 'field.do_try=%d' % try_,
         'ReadMode::Calc(calc)~' if calc else 'ReadMode::Normal|ReadMode::ParseWith(_)~', 'letReadMode::ParseWith(parser)=&self.field.read_mode=%d' % parser, 'ReadMode::Normal~', ('Map::None~', 'Map::Map(map)~', 'Map::Try(try_map)~')[map_],
         'self.field.should_use_after_parse()=%d' % (1 - now), 'field.can_call_after_parse()=%d' % (not map_ and not parser and not calc),
         'magic=%d' % magic, 'field.seek_before=%d' % sb, 'field.pad_before=%d' % pb, 'field.align_before=%d' % ab, 'field.pad_size_to=%d' % ps, 'field.pad_after=%d' % pa, 'field.align_after=%d' % aa,
         'letSome(offset)=&offset=%d' % off, 'letSome(count)=&count=%d' % cnt, ep,
         'options_var:=OPTIONS', 'args_var:=ARGS_VAR', 'ident:=FIELD', 'ty:=FieldTy', 'args:=hole_args()', 'assertions?', 'unit'] + [x + '!' for x in ('seek_before', 'pad_before', 'align_before', 'pad_size_to', 'pad_after', 'align_after', 'condition', 'alternate', 'magic', 'offset', 'count', 'calc')]
    ft = 'Option<Val>' if try_ and not map_ else 'Val'
    H = 'pub type FieldTy = %s;\n' % ft
    H += code('assertions', 2, stmt=True, rep=True, still=True)
    req = ['pos_ok(old(READER).at())']
    H += value('args', 'Args')
    if parser:
        H += '#[verifier::external_body] pub fn hole_parser<R: Seek>(r: &mut R, o: &ReadOptions, a: Args) -> (x: BinResult<Val>) ensures final(r).no() == old(r).no(), final(r).len() == old(r).len(), pos_ok(final(r).at()), final(r).tr() == old(r).tr().push(Ev::Read { o: *o, a, from: old(r).at(), to: final(r).at(), out: out(x) }) { unimplemented!() }\n'
    if calc:
        H += value('calc', 'Val')
    H += MAPS[map_].replace(', T: IsVal', '').replace('v: T', 'v: ' + ('Option<Val>' if try_ else 'Val'))
    if cond or end.startswith('cond'):
        H += value('condition', 'bool')
    if cond:
        H += 'pub uninterp spec fn s_alternate() -> FieldTy;\n#[verifier::external_body] pub fn hole_alternate() -> (x: FieldTy) ensures x == s_alternate() { unimplemented!() }\n'
    for k, n, ty in ((magic, 'magic', 'Magic'), (sb, 'seek_before', 'SEEK_FROM'), (pb, 'pad_before', 'i64'), (ab, 'align_before', 'i64'), (ps, 'pad_size_to', 'i64'), (pa, 'pad_after', 'i64'), (aa, 'align_after', 'i64'), (off, 'offset', 'u64'), (cnt, 'count', 'usize')):
        if k:
            H += value(n, ty)
            if n.startswith('align'):
                req.append('s_%s() > 0' % n)
            elif n == 'pad_size_to':
                req.append('s_pad_size_to() >= 0')
    e = {'inherit': 'OPT.endian', 'big': 'ENDIAN_ENUM::Big', 'little': 'ENDIAN_ENUM::Little', 'cond_big': 'if s_condition() { ENDIAN_ENUM::Big } else { ENDIAN_ENUM::Little }',
         'cond_little': 'if s_condition() { ENDIAN_ENUM::Little } else { ENDIAN_ENUM::Big }'}[end]
    H += 'pub open spec fn opts(OPT: &ReadOptions) -> ReadOptions { ReadOptions { endian: %s, count: %s, offset: %s } }\n' % (e, 'Some(s_count())' if cnt else 'OPT.count', 's_offset()' if off else 'OPT.offset')
    # where the field begins, given where the reader is before it
    b = 'p'
    if sb:
        b = 'goal(s_seek_before(), %s, l)' % b
    if pb:
        b = '(%s + s_pad_before())' % b
    if ab:
        b = 'up(%s, s_align_before() as int)' % b
    H += 'pub open spec fn begins(p: int, l: int) -> int { %s }\n' % b
    # where it ends, given where it begins and where the value ended
    z = 'q'
    if ps:
        z = '(if q >= b + s_pad_size_to() { q } else { b + s_pad_size_to() })'
    if pa:
        z = '(%s + s_pad_after())' % z
    if aa:
        z = 'up(%s, s_align_after() as int)' % z
    H += 'pub open spec fn ends(b: int, q: int) -> int { %s }\n' % z
    m = 1 if magic else 0
    d = dict(o=T0, f=TF, m=m, now=now)
    pre = '''let p = %s; let b = begins(p, old(READER).len()); ''' % ('to(%(f)s[%(o)s.len() as int])' % d if magic else 'old(READER).at()')
    rd = '%(f)s[%(o)s.len() as int + %(m)s]' % d
    isread = '%s matches Ev::Read { o, a, from: fr, to: q0, out: ou } && o == opts(OPT) && a == s_args() && fr == b' % rd
    q = 'to(%s)' % rd
    if now:
        af = '%(f)s[%(o)s.len() as int + %(m)s + 1]' % d
    vals = []
    n = m + 1 + now
    if try_:
        val0 = '(if outcome(%s) is V { Some(outcome(%s)->V_0) } else { None })' % (rd, rd)
        q = '(if outcome(%s) is V { to(%s) } else { b })' % (rd, rd)
        okread = 'true'
    else:
        val0 = 'outcome(%s)->V_0' % rd
        okread = 'outcome(%s) is V' % rd
    if now:
        vv = 'V2::O(%s)' % val0 if try_ else 'V2::V(%s)' % val0
        after = ' && (%s matches Ev::After { before, after, o: o2, a: a2, from: f2, to: t2, out: ou2, lenient } && before == %s && after == v.v() && o2 == opts(OPT) && a2 == s_args() && f2 == %s && ou2 == Out::Unit && lenient == %s)' % (af, vv, q, 'true' if try_ else 'false')
        q = 'to(%s)' % af
    elif map_:
        af = '%(f)s[%(o)s.len() as int + %(m)s + 1]' % d
        n += 1
        after = ' && (%s matches Ev::Apply { what, arg, at: t2, out: ou2, e: me } && what == %d && arg == V2::%s(%s) && ou2 == Out::V(v) && me is None)' % (af, map_, 'O' if try_ else 'V', val0)
    else:
        after = ' && v == ' + val0
    def done(k, q):
        return '%s.len() == %s.len() + %d + __n && final(READER).at() == %s' % (TF, T0, k, 'p' if restore else q)
    mg = '%(f)s.len() > %(o)s.len() && (%(f)s[%(o)s.len() as int] matches Ev::Magic { m, o, from: fr, to: t0, out: ou } && m == s_magic() && o == opts(OPT) && fr == old(READER).at() && ou == Out::Unit) && ' % d if magic else ''

    def whole(done):
        s = '(%s) && %s%s && %s' % (isread, okread, after, done(n, 'ends(b, %s)' % q))
        return 'if s_condition() { %s } else { v == s_alternate() && %s }' % (s, done(m, 'p')) if cond else s
    okr = whole(done)
    if calc:
        okr = 'v == %s && %s' % ('Some(s_calc())' if try_ else 's_calc()', done(m, 'p'))
        okr = 'if s_condition() { %s } else { v == s_alternate() && %s }' % (okr, done(m, 'p')) if cond else okr
    # errors: the last thing done failed and that is the error, nothing else failed (but a read under try)
    keep = '(#[trigger] %(f)s[j]) is Read || good(%(f)s[j])' % d if try_ else 'good(#[trigger] %(f)s[j])' % d
    spec = '''requires %(req)s ensures extends(%(f)s, %(o)s),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() - 1 ==> %(keep)s,
      match r {
        Ok(v) => %(mg)s({ %(pre)s %(okr)s }),
        Err(e) => (%(f)s.len() > %(o)s.len() && outcome(%(f)s.last()) == Out::Err(e)%(nt)s) || %(mp)srefused(*final(READER), *old(READER), e) }''' % dict(d, req=', '.join(req), keep=keep,
        mp='(%(f)s.len() == %(o)s.len() + %(m)s + 2 && (%(f)s.last() matches Ev::Apply { what, arg, at, out, e: Some(me) } && arg == V2::%(K)s(%(v0)s) && e == map_error(from(%(rd)s), me))) || ' % dict(d, K='O' if try_ else 'V', v0=val0, rd=rd) if map_ == 2 else '', mg=mg, pre=pre, okr=okr, nt=' && !(%s.last() is Read)' % TF if try_ else '')
    unit(name, props, D + '/struct.rs', 'std', 'template fn generate_field | ' + ';'.join(S), prelude='tmpl.rs', nparams=0, valbody='FIELD',
         sig='pub fn field<R: Seek>(READER: &mut R, OPT: &ReadOptions, POS: u64, __n: usize) -> (r: BinResult<FieldTy>)', holes=H, spec=spec,
         pro='    broadcast use up_ok;\n' + G + '    let ghost g_no = READER.no();\n    let ghost g_at = READER.at();\n    let ghost g_len = READER.len();\n    assert(forall|x: u64| x >= 0x8000_0000_0000_0000 ==> #[trigger] (x as i64) == (x - 0x1_0000_0000_0000_0000)) by(bit_vector);\n',
         inv=PRE + ['READER.at() == to($P.last())', 'READER.at() == $Q'], what=what)


ALL = 'every field type, position, amount and outcome: '
field('tmpl_field', ['C03', 'C06'], ALL + 'a plain field is one read')
for nm, kw in (('seek', dict(sb=1)), ('pad', dict(pb=1, pa=1)), ('align', dict(ab=1, aa=1)), ('size', dict(ps=1)), ('before', dict(sb=1, pb=1, ab=1)), ('after', dict(ps=1, pa=1, aa=1)),
               ('all', dict(sb=1, pb=1, ab=1, ps=1, pa=1, aa=1)), ('restore', dict(restore=1)), ('restore_all', dict(restore=1, magic=1, sb=1, pb=1, ab=1, ps=1, pa=1, aa=1)),
               ('cond', dict(cond=1, sb=1, pb=1, ab=1, ps=1, pa=1, aa=1)), ('try', dict(try_=1, sb=1, pb=1, ab=1, ps=1, pa=1, aa=1))):
    field('tmpl_place_' + nm, ['C15'] + (['C16'] if nm in ('cond', 'try') else []), ALL + 'the reader goes where the directives say, in their order', **kw)
for nm, kw in (('cond', dict(cond=1)), ('try', dict(try_=1)), ('cond_try', dict(cond=1, try_=1)), ('cond_magic', dict(cond=1, magic=1)), ('cond_try_magic_restore', dict(cond=1, try_=1, magic=1, restore=1)), ('cond_try_now', dict(cond=1, try_=1, now=1))):
    field('tmpl_when_' + nm, ['C16'] + (['C05'] if 'magic' in nm else []), ALL + 'read exactly when the condition holds; a failed try gives None with the reader back', **kw)
for e in ('inherit', 'big', 'little', 'cond_big', 'cond_little'):
    for off in (0, 1):
        for cnt in (0, 1):
            field('tmpl_opts_%s%s%s' % (e, '_offset' if off else '', '_count' if cnt else ''), ['C04'] + (['C05'] if not off and not cnt else []), ALL + 'magic and read get the caller\'s options with exactly the field\'s own changes', end=e, off=off, cnt=cnt, magic=1)
for nm, kw in (('now', dict(now=1)), ('now_try', dict(now=1, try_=1)), ('now_opts', dict(now=1, end='big', off=1, cnt=1))):
    field('tmpl_' + nm, ['C14'], ALL + 'deref_now postprocesses once, right after the read, with the field\'s options and arguments', **kw)

for nm, kw in (('map', dict(map_=1)), ('map_try', dict(map_=1, try_=1)), ('map_cond_magic', dict(map_=1, cond=1, magic=1)), ('map_place', dict(map_=1, sb=1, pb=1, ab=1, ps=1, pa=1, aa=1)),
               ('try_map', dict(map_=2)), ('try_map_try', dict(map_=2, try_=1)), ('try_map_cond_magic', dict(map_=2, cond=1, magic=1)), ('try_map_place', dict(map_=2, sb=1, pb=1, ab=1, ps=1, pa=1, aa=1)),
               ('map_parser', dict(map_=1, parser=1)), ('try_map_parser', dict(map_=2, parser=1))):
    field('tmpl_' + nm, ['C17'], ALL + 'the function is applied once, to what was read; its error gets the position where the value begins', **kw)
for nm, kw in (('parser', dict(parser=1)), ('parser_try', dict(parser=1, try_=1)), ('calc', dict(calc=1)), ('calc_cond', dict(calc=1, cond=1)), ('calc_try', dict(calc=1, try_=1))):
    field('tmpl_' + nm, ['C03'], ALL + ('the parser is called in place of the read, with the same options and arguments' if 'parser' in nm else 'a computed field does not touch the reader'), **kw)


def stages(ns):
    """what comes at place k: (number of pieces of each kind, one after another)"""
    w, i = str(len(ns) + 1), '0'
    tot = ['0']
    for n in ns:
        tot.append(tot[-1] + ' + ' + n)
    for k in range(len(ns) - 1, -1, -1):
        w = 'if k < %s { %d } else { %s }' % (tot[k + 1], k + 1, w)
        i = 'if k < %s { k - (%s) } else { %s }' % (tot[k + 1], tot[k], i)
    return w, i, tot[-1]


def pieces(name, props, loc, file, ns, ok, what, sig, holes, **k):
    """pieces of code one after another, to the first error"""
    w, i, tot = stages(ns)
    d = dict(o=T0, f=TF, w=w, i=i, tot=tot, ok=ok)
    unit(name, props, D + file, 'std', loc, prelude='tmpl.rs', nparams=0, sig=sig, holes=holes,
         spec='''ensures extends(%(f)s, %(o)s),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() ==> ({ let k = j - %(o)s.len(); is_code(#[trigger] %(f)s[j], %(w)s, %(i)s) }),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() - 1 ==> good(#[trigger] %(f)s[j]),
      match r {
        Ok(v) => %(f)s.len() == %(o)s.len() + %(tot)s && good(%(f)s.last()) && %(ok)s,
        Err(e) => (%(f)s.len() > %(o)s.len() && outcome(%(f)s.last()) == Out::Err(e)) || refused(*final(READER), *old(READER), e) }''' % d,
         pro=G + '    let ghost g_no = READER.no();\n',
         inv=PRE + ['READER.at() == to(READER.tr().last())', 'READER.at() == $Q', 'forall|j: int| g_tr.len() <= j < READER.tr().len() ==> good(#[trigger] READER.tr()[j])', 'extends(READER.tr(), g_tr)',
              'forall|j: int| g_tr.len() <= j < READER.tr().len() ==> ({ let k = j - g_tr.len(); is_code(#[trigger] READER.tr()[j], %s, %s) })' % (w, i), '$I <= __m', '$I <= __k'], what=what, **k)


BODY = code('prelude', 1, stmt=True) + code('generate_field', 2, stmt=True, rep=True) + code('generate_after_parse', 3, stmt=True, rep=True) + value('return_value', 'Val')
BSET = 'prelude?;value.is_empty()=0;get_assertions@;return_value?;return_value!;st_assertions#m;en_assertions#k'
BOK = 'final(READER).at() == to(%s[%s.len() + __n]) && v == s_return_value()' % (TF, T0)
pieces('tmpl_struct', ['C03', 'C06', 'C14'], 'template fn generate_struct | ' + BSET, '/struct.rs', ['1', '__n', '__n', '__m'], BOK,
       'any number of fields and assertions, whatever each does: prelude, fields, postprocessing, assertions on the type, each in order, to the first error',
       'pub fn body<R: Seek>(READER: &mut R, __n: usize, __m: usize) -> (r: BinResult<Val>)', BODY + code('st_assertions', 4, stmt=True, rep=True, still=True))
pieces('tmpl_variant', ['C03', 'C06', 'C07', 'C14'], 'template fn generate_variant_impl | EnumVariant::Variant{ident,options}~;' + BSET, '/enum.rs', ['1', '__n', '__n', '__m', '__k'], BOK,
       'any number of fields and assertions of a variant, and of the enum, whatever each does: prelude, fields, postprocessing, the variant\'s assertions, the enum\'s, each in order, to the first error',
       'pub fn body<R: Seek>(READER: &mut R, __n: usize, __m: usize, __k: usize) -> (r: BinResult<Val>)', BODY + code('st_assertions', 4, stmt=True, rep=True, still=True) + code('en_assertions', 5, stmt=True, rep=True, still=True))
pieces('tmpl_unit_struct', ['C06'], 'template fn generate_unit_struct | prelude?;assertions?;get_return_type!', '/struct.rs', ['1', '__n'], 'final(READER).at() == to(%s[%s.len() as int]) && v == s_get_return_type()' % (TF, T0),
       'any number of assertions of a unit struct: all decided in order after the prelude',
       'pub fn body<R: Seek>(READER: &mut R, __n: usize) -> (r: BinResult<Val>)', code('prelude', 1, stmt=True) + value('get_return_type', 'Val') + code('assertions', 2, stmt=True, rep=True, still=True))

for e, ep, ev in (('inherit', 'CondEndian::Inherited~', 'OPT.endian'), ('big', 'CondEndian::Fixed(Endian::Big)~', 'ENDIAN_ENUM::Big'), ('little', 'CondEndian::Fixed(Endian::Little)~', 'ENDIAN_ENUM::Little'),
                  ('cond_big', 'CondEndian::Cond(endian,condition)~;Endian::Big~', 'if s_condition() { ENDIAN_ENUM::Big } else { ENDIAN_ENUM::Little }'),
                  ('cond_little', 'CondEndian::Cond(endian,condition)~;Endian::Little~', 'if s_condition() { ENDIAN_ENUM::Little } else { ENDIAN_ENUM::Big }')):
    for mg in (0, 1):
        d = dict(o=T0, f=TF, m=mg)
        mp = '(%(f)s[%(o)s.len() as int] matches Ev::Magic { m, o, from: fr, to: t0, out: ou } && m == s_magic() && o == opts(OPT) && fr == old(READER).at() && ou == Out::Unit) && final(READER).at() == to(%(f)s[%(o)s.len() as int])' % d if mg else 'final(READER).at() == old(READER).at()'
        unit('tmpl_prelude_%s%s' % (e, '_magic' if mg else ''), ['C04'] + (['C05', 'C06'] if mg else []), D + '/struct.rs', 'std', 'template fn get_prelude | letSome(imports)=self.input.imports().idents()=0;magic=%d;magic!;condition!;unit;get_assertions@;%s' % (mg, ep), prelude='tmpl.rs', nparams=0, valbody='*OPT',
             sig='pub fn prelude<R: Seek>(READER: &mut R, OPT: &ReadOptions, __n: usize) -> (r: BinResult<ReadOptions>)',
             holes=value('magic', 'Magic') + value('condition', 'bool') + code('input_pre_assertions', 2, stmt=True, rep=True, still=True)
             + 'pub open spec fn opts(OPT: &ReadOptions) -> ReadOptions { ReadOptions { endian: %s, count: OPT.count, offset: OPT.offset } }\n' % ev,
             spec='''ensures extends(%(f)s, %(o)s),
      forall|j: int| %(o)s.len() + %(m)s <= j < %(f)s.len() ==> is_code(#[trigger] %(f)s[j], 2, j - %(o)s.len() - %(m)s),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() - 1 ==> good(#[trigger] %(f)s[j]),
      match r {
        Ok(v) => v == opts(OPT) && %(f)s.len() == %(o)s.len() + %(m)s + __n && (%(f)s.len() > %(o)s.len() ==> good(%(f)s.last())) && %(mp)s,
        Err(e) => %(f)s.len() > %(o)s.len() && outcome(%(f)s.last()) == Out::Err(e) }''' % dict(d, mp=mp),
             pro=G + '    let ghost g_no = READER.no();\n',
             inv=PRE + ['READER.at() == $Q', 'forall|j: int| g_tr.len() + %d <= j < READER.tr().len() ==> is_code(#[trigger] READER.tr()[j], 2, j - g_tr.len() - %d)' % (mg, mg), 'extends(READER.tr(), g_tr)'],
             what='every type or variant, any number of pre-assertions: its byte order, else the caller\'s, is in force from the magic on; the magic comes first, then the pre-assertions in order; count and offset stay the caller\'s')

for off in (0, 1):
    for tr in (0, 1):
        unit('tmpl_after%s%s' % ('_offset' if off else '', '_try' if tr else ''), ['C14'], D + '/struct.rs', 'std',
             'template fn generate_after_parse | field.should_use_after_parse()=1;field.can_call_after_parse()=1;field.do_try=%d;letSome(offset)=&self.field.offset_after=%d;options_var:=OPTIONS;args_var:=ARGS_VAR;ident:=FIELD;offset!;unit' % (tr, off), prelude='tmpl.rs', nparams=0, unitbody=True,
             sig='pub fn after<R: Seek>(READER: &mut R, OPTIONS: &ReadOptions, ARGS_VAR: Args, FIELD0: %s) -> (r: BinResult<()>)' % ('Option<Val>' if tr else 'Val'), holes=value('offset', 'u64'),
             spec='''ensures extends(%(f)s, %(o)s), %(f)s.len() == %(o)s.len() + 1,
      %(f)s.last() matches Ev::After { before, after, o, a, from, to, out, lenient } && before == FIELD0.v() && o == (ReadOptions { endian: OPTIONS.endian, count: OPTIONS.count, offset: %(off)s }) && a == ARGS_VAR && from == old(READER).at() && lenient == %(tr)s
        && (match r { Ok(_) => out == Out::Unit, Err(e) => out == Out::Err(e) }) && final(READER).at() == to''' % dict(o=T0, f=TF, off='s_offset()' if off else 'OPTIONS.offset', tr='true' if tr else 'false'),
             pro='    let mut FIELD = FIELD0;\n', inv=[], what='every field: postprocessed once, with its own options and arguments' + (', the offset replaced by offset_after' if off else ''))

for nm, mp in (('map', 1), ('try_map', 2)):
    ap = '%s[%s.len() as int + 2]' % (TF, T0)
    unit('tmpl_type_' + nm, ['C17'], D + '.rs', 'std', 'template fn generate : inner | Map::%s(map)~;prelude?' % ('Map' if mp == 1 else 'Try'), prelude='tmpl.rs', nparams=0,
         sig='pub fn mapped<R: Seek>(READER: &mut R, OPT: &ReadOptions, ARGS: Args, POS: u64) -> (r: BinResult<Val>)', holes=code('prelude', 1, stmt=True) + MAPS[mp].replace('hole_try_map', 'hole_map').replace(', T: IsVal', '').replace('v: T', 'v: Val'),
         spec='''requires old(READER).at() == POS ensures extends(%(f)s, %(o)s), %(f)s.len() > %(o)s.len(), is_code(%(f)s[%(o)s.len() as int], 1, 0),
      forall|j: int| %(o)s.len() <= j < %(f)s.len() - 1 ==> good(#[trigger] %(f)s[j]),
      %(f)s.len() >= %(o)s.len() + 2 ==> (%(f)s[%(o)s.len() as int + 1] matches Ev::Read { o, a, from, to: t1, out } && o == *OPT && a == ARGS && from == to(%(f)s[%(o)s.len() as int])),
      %(f)s.len() >= %(o)s.len() + 3 ==> (%(ap)s matches Ev::Apply { what, arg, at, out, e } && arg == V2::V(outcome(%(f)s[%(o)s.len() as int + 1])->V_0)),
      match r {
        Ok(v) => %(f)s.len() == %(o)s.len() + 3 && (%(ap)s matches Ev::Apply { what, arg, at, out, e } && out == Out::V(v) && e is None) && final(READER).at() == to(%(f)s[%(o)s.len() as int + 1]),
        Err(e) => (%(f)s.len() <= %(o)s.len() + 2 && outcome(%(f)s.last()) == Out::Err(e))%(er)s }''' % dict(o=T0, f=TF, ap=ap, er=' || (%s.len() == %s.len() + 3 && (%s matches Ev::Apply { what, arg, at, out, e: Some(me) } && e == map_error(POS as int, me)))' % (TF, T0, ap) if mp == 2 else ''),
         pro='', inv=[], what='every type with %s: prelude, one read under its options, the function once on that value' % nm)

# enums of unit variants: any number of variants, any conditions on them
HIT = 'pub open spec fn hit(d: %s, i: int) -> bool { %s && s_all_condition(i as usize) }\n'
def per(name, ty, arg='', spec=''):
    return 'pub uninterp spec fn s_%s(%si: usize) -> %s;\n' % (name, arg, ty) + '#[verifier::external_body] pub fn hole_%s(i: usize) -> (x: %s) ensures x == s_%s(i) { unimplemented!() }\n' % (name, ty, name) * (not arg)


for nm, fn, extra, vals, H in (
        ('repr', 'generate_unit_enum_repr', 'repr:=u64;discriminant!', 'N', per('discriminant', 'u64') + HIT % ('u64', 'd == s_discriminant(i as usize)')),
        ('magic', 'generate_unit_enum_magic', 'letSome(magic)=&field.magic=1;field.pre_assertions.is_empty()=0;amp:=', 'V', None),
        ('magic_ref', 'generate_unit_enum_magic', 'letSome(magic)=&field.magic=1;field.pre_assertions.is_empty()=0;amp:=&', 'V', None),
        ('magic_plain', 'generate_unit_enum_magic', 'letSome(magic)=&field.magic=1;field.pre_assertions.is_empty()=1;amp:=', 'V', None)):
    ref = '&' if nm == 'magic_ref' else ''
    H = H or 'pub uninterp spec fn s_matches(d: Val, i: usize) -> bool;\n#[verifier::external_body] pub fn hole_magic(v: &%sVal, i: usize) -> (x: bool) ensures x == s_matches(*%sv, i) { unimplemented!() }\n' % (ref, '*' if ref else '') + HIT % ('Val', 's_matches(d, i as usize)' )
    if nm == 'magic_plain':
        H = H.replace(' && s_all_condition(i as usize)', '')
    d = dict(o=T0, f=TF, v=vals, got='outcome(%s.last())->%s_0' % (TF, vals))
    unit('tmpl_units_' + nm, ['C08'] + (['C05'] if 'magic' in nm else []), D + '/enum.rs', 'std', 'template fn %s | prelude?;variant!;all_condition!;%s' % (fn, extra), prelude='tmpl.rs', nparams=0,
         sig='pub fn units<R: Seek>(READER: &mut R, OPT: &ReadOptions, POS: u64, __n: usize) -> (r: BinResult<Val>)', holes=code('prelude', 1, stmt=True) + per('variant', 'Val') + per('all_condition', 'bool') + H,
         spec='''ensures extends(%(f)s, %(o)s), %(o)s.len() < %(f)s.len() <= %(o)s.len() + 2, is_code(%(f)s[%(o)s.len() as int], 1, 0),
      %(f)s.len() == %(o)s.len() + 2 ==> good(%(f)s[%(o)s.len() as int]) && (%(f)s.last() matches Ev::Read { o, a, from, to: t1, out } && o == *OPT && a == no_args() && from == to(%(f)s[%(o)s.len() as int])),
      match r {
        Ok(v) => %(f)s.len() == %(o)s.len() + 2 && outcome(%(f)s.last()) is %(v)s && final(READER).at() == to(%(f)s.last()) && exists|i: usize| i < __n && v == #[trigger] s_variant(i) && hit(%(got)s, i as int) && forall|j: int| 0 <= j < i ==> !#[trigger] hit(%(got)s, j),
        Err(e) => outcome(%(f)s.last()) == Out::Err(e)
            || (%(f)s.len() == %(o)s.len() + 2 && outcome(%(f)s.last()) is %(v)s && e == (BIN_ERROR::NoVariantMatch { pos: POS }) && forall|j: int| 0 <= j < __n ==> !#[trigger] hit(%(got)s, j)) }''' % d,
         pro='', inv=['READER.tr() == $P', 'READER.at() == $Q', '$I <= __n', 'forall|j: int| 0 <= j < $I ==> !#[trigger] hit(outcome(READER.tr().last())->%s_0, j)' % vals],
         what='any number of variants: one value is read, and the first variant whose value it is and whose conditions hold is the result, else NoVariantMatch at the start')

# the same code, asked only for what Verus demands of any body: no overflow, no failing unwrap, index
# or arithmetic, no callee precondition broken
for n in ('vec_read', 'array_read_macro', 'array_read_const_generic', 'helper_count', 'read_bytes', 'until', 'until_exclusive', 'until_eof', 'separated', 'separated_trailing', 'nul_string', 'nul_wide_string',
          'vec_after_parse', 'array_after_parse_macro', 'tmpl_wrapper', 'tmpl_data_enum', 'tmpl_fields', 'tmpl_units_repr', 'tmpl_units_magic', 'tmpl_place_restore_all', 'tmpl_place_cond', 'tmpl_place_try', 'tmpl_try_map_place', 'tmpl_now_try'):
    u = dict(UNITS[n], props=['C21'], what='no overflow, panic or broken precondition, for every input: ' + n)
    u['spec'] = u['spec'][:u['spec'].index('ensures')] + 'ensures true'
    UNITS['safe_' + n] = u
