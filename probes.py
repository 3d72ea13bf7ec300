"""Properties of what the compiler accepts: each probe is one translation unit, accepted or rejected."""
import os, subprocess, tempfile, shutil, concurrent.futures
CXX = 'clang++'
def accepts(repo, d, name, src, how=(CXX, '-std=c++17', '-O0', '-c')):
    f = os.path.join(d, name + '.cpp')
    with open(f, 'w') as fh: fh.write(src)
    p = subprocess.run(list(how) + ['-w', '-I' + os.path.join(repo, 'include'), f] + (['-o', os.path.join(d, name + '.o')] if '-c' in how else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout
def run(repo, probes):
    """probes: list of (name, source, must_compile, text[, compiler and flags])"""
    d = tempfile.mkdtemp(prefix='probe')
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda p: accepts(repo, d, p[0], p[1], *p[4:]), probes))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = []
    for (name, src, must, text), (ok, out) in zip((p[:4] for p in probes), rs):
        if ok != must:
            bad.append('%s %s\n\n%s\n\n%s' % (text, 'is rejected by the compiler' if must else 'is accepted by the compiler', src, out[:3000]))
    return bad

def container(c, args, body='', extra=''):
    return '''#include <boost/lockfree/%s.hpp>
#include <memory>
#include <array>
#include <iterator>
#include <vector>
%s
typedef boost::lockfree::%s<%s> C;
int main( ) { std::unique_ptr< C > p( new C%s ); C& c = *p; int v; (void)v; %s }
''' % ({'spsc_queue': 'spsc_queue'}.get(c, c), extra, c, args, '( 4 )' if 'capacity' not in args else '', body)

def C18(repo):
    cap = lambda n: 'int, boost::lockfree::capacity< %d >' % n
    body = 'c.push( 1 ); c.bounded_push( 2 ); c.pop( v );'
    return run(repo, [
        ('s65535', container('stack', cap(65535), body), True, 'stack with capacity<65535>'),
        ('s65536', container('stack', cap(65536), body), False, 'stack with capacity<65536> (65536 nodes)'),
        ('s65537', container('stack', cap(65537), body), False, 'stack with capacity<65537>'),
        ('s131072', container('stack', cap(131072), body), False, 'stack with capacity<131072>'),
        ('q65534', container('queue', cap(65534), body), True, 'queue with capacity<65534>'),
        ('q65535', container('queue', cap(65535), body), False, 'queue with capacity<65535> (65536 nodes)'),
        ('q65536', container('queue', cap(65536), body), False, 'queue with capacity<65536>'),
        ('q65537', container('queue', cap(65537), body), False, 'queue with capacity<65537>'),
        ('q131071', container('queue', cap(131071), body), False, 'queue with capacity<131071>'),
    ])

OPS_Q = '''c.push( 1 ); c.bounded_push( 2 ); c.unsynchronized_push( 3 ); long l; c.pop( v ); c.pop( l ); c.unsynchronized_pop( v ); c.unsynchronized_pop( l );
c.consume_one( []( int ) {} ); c.consume_all( []( int ) {} ); (void)c.empty( ); (void)c.is_lock_free( );'''
OPS_S = OPS_Q + ''' c.consume_all_atomic( []( int ) {} ); c.consume_all_atomic_reversed( []( int ) {} );'''
RNG = '''int a[3] = { 1, 2, 3 }; c.push( a, a + 3 ); c.bounded_push( a, a + 3 ); c.unsynchronized_push( a, a + 3 );
std::vector< int > w( 3 ); c.push( w.begin( ), w.end( ) ); c.push( w.cbegin( ), w.cend( ) );'''
def cfgs(c):
    yield 'default', 'int'
    yield 'fixed', 'int, boost::lockfree::fixed_sized< true >'
    yield 'dynamic', 'int, boost::lockfree::fixed_sized< false >'
    yield 'cap', 'int, boost::lockfree::capacity< 3 >'
    yield 'alloc', 'int, boost::lockfree::allocator< std::allocator< void > >'
    yield 'falloc', 'int, boost::lockfree::fixed_sized< true >, boost::lockfree::allocator< std::allocator< void > >'
def C13(repo):
    return run(repo, [('q' + n, container('queue', a, OPS_Q), True, 'the documented interface of queue<%s>' % a) for n, a in cfgs('queue')])
def C14(repo):
    return run(repo, [('s' + n, container('stack', a, OPS_S + RNG), True, 'the documented interface of stack<%s>' % a) for n, a in cfgs('stack')])
def C03(repo):
    return run(repo, [('r' + n, container('stack', a, RNG), True, 'pushing ranges to stack<%s>' % a) for n, a in cfgs('stack')])
def C09(repo):
    D = 'struct E { int i; ~E( ) { } };'; A = 'struct E { int i; E& operator=( E const& o ) { i = o.i; return *this; } };'; N = 'struct E { int i; };'
    l = [('qd', container('queue', 'E', '', D), False, 'a queue of elements with a non-trivial destructor'),
         ('qa', container('queue', 'E', '', A), False, 'a queue of elements with a non-trivial assignment'),
         ('qt', container('queue', 'E', '', N), True, 'a queue of trivial elements'),
         ('st', container('stack', 'E', 'c.push( E( ) ); c.consume_all( []( E const& ) {} );', D), True, 'a stack of elements with a non-trivial destructor'),
         ('rt', container('spsc_queue', 'E', 'c.push( E( ) ); c.consume_all( []( E const& ) {} );', D), True, 'a ring of elements with a non-trivial destructor')]
    for c in ('queue', 'stack', 'spsc_queue'):
        for n, a in (('d', 'int'), ('c', 'int, boost::lockfree::capacity< 3 >')):
            l += [(c[:2] + n + 'cc', container(c, a, 'C d( c );'), False, 'copying a %s<%s>' % (c, a)), (c[:2] + n + 'as', container(c, a, 'std::unique_ptr< C > d; *d = c;'), False, 'assigning a %s<%s>' % (c, a))]
    return run(repo, l)
def C12(repo):
    body = '''int a[3] = { 1, 2, 3 }; long l; c.push( 1 ); c.push( a ); c.push( a, 3 ); c.push( a, a + 3 ); std::vector< int > w; c.push( w.cbegin( ), w.cend( ) );
c.pop( ); c.pop( v ); c.pop( l ); c.pop( a ); c.pop( a, 3 ); c.pop( std::back_inserter( w ) ); c.consume_one( []( int ) {} ); c.consume_all( []( int ) {} );
if ( c.read_available( ) ) v = c.front( ); C const& cc = c; (void)cc.read_available( ); (void)cc.write_available( ); (void)c.empty( ); (void)c.is_lock_free( ); c.reset( );'''
    return run(repo, [('p' + n, container('spsc_queue', a, body), True, 'the documented interface of spsc_queue<%s>' % a)
                      for n, a in (('d', 'int'), ('c', 'int, boost::lockfree::capacity< 3 >'), ('a', 'int, boost::lockfree::allocator< std::allocator< void > >'))])

def C21(repo):
    import itertools
    P = dict(C='boost::lockfree::capacity< 3 >', F='boost::lockfree::fixed_sized< true >', f='boost::lockfree::fixed_sized< false >', A='boost::lockfree::allocator< std::allocator< int > >')
    packs = [''] + [''.join(o) for n in (1, 2, 3) for c in itertools.combinations('CFfA', n) if not {'F', 'f'} <= set(c) for o in itertools.permutations(c)]
    l = []
    for c in ('queue', 'stack'):
        for p in packs:
            a = ', '.join(['int'] + [P[x] for x in p])
            l.append((c[0] + p + str(len(l)), container(c, a, 'c.push( 1 ); c.bounded_push( 2 ); c.pop( v ); c.consume_all( []( int ) {} ); (void)c.is_lock_free( );'), True, '%s<%s>' % (c, a)))
    for p in ('', 'C', 'A'):
        a = ', '.join(['int'] + [P[x] for x in p])
        l.append(('r' + p, container('spsc_queue', a, 'c.push( 1 ); c.push( &v, 1 ); c.pop( v ); c.consume_all( []( int ) {} );'), True, 'spsc_queue<%s>' % a))
    return run(repo, l)

def C22(repo):
    H = 'E* operator&( ) = delete; E const* operator&( ) const = delete; static void* operator new( std::size_t ) = delete; static void operator delete( void* ) = delete;'
    T = [('a' + str(a), 'struct alignas( %d ) E { char i[3]; };' % a, 'elements aligned to %d' % a) for a in (1, 32, 64, 128, 4096)] + [
         ('h', 'struct E { char i[3]; %s };' % H, 'elements that overload unary & and operator new'), ('ha', 'struct alignas( 256 ) E { char i[3]; %s };' % H, 'elements aligned to 256 that overload unary & and operator new')]
    Q = 'E e; c.push( e ); c.bounded_push( e ); c.unsynchronized_push( e ); c.pop( e ); c.unsynchronized_pop( e ); c.consume_one( []( E const& ) {} ); c.consume_all( []( E const& ) {} );'
    S = Q + ' E a[2]; c.push( a, a + 2 ); c.bounded_push( a, a + 2 ); c.unsynchronized_push( a, a + 2 ); c.consume_all_atomic( []( E const& ) {} ); c.consume_all_atomic_reversed( []( E const& ) {} );'
    R = 'E e; E a[2]; c.push( e ); c.push( a ); c.push( a, 2 ); c.push( a, a + 2 ); c.pop( ); c.pop( e ); c.pop( a ); c.pop( a, 2 ); std::vector< E > w; c.pop( w.begin( ) ); c.consume_one( []( E const& ) {} ); c.consume_all( []( E const& ) {} ); (void)c.front( ); c.reset( );'
    l = []
    for c, b in (('queue', Q), ('stack', S), ('spsc_queue', R)):
        for n, a in cfgs(c):
            if c == 'spsc_queue' and ('fixed' in a): continue
            if n in ('dynamic', 'falloc'): continue
            a = 'E' + a[3:]
            for t, d, text in T: l.append((c[:2] + n + t, container(c, a, b, d), True, '%s<%s> of %s' % (c, a, text)))
    return run(repo, l)
FN = 'struct Fn { int n = 0; Fn( ) {} Fn( Fn const& ) = delete; void operator()( int ) { n++; } void operator()( int ) const {} };'
def fn(*ops): return ' Fn f; Fn const g; ' + ''.join('c.%s( f ); c.%s( g ); c.%s( Fn( ) ); ' % (o, o, o) for o in ops)
def C23(repo):
    R = (('d', 'int'), ('c', 'int, boost::lockfree::capacity< 3 >'), ('a', 'int, boost::lockfree::allocator< std::allocator< void > >'))
    O = ('consume_one', 'consume_all')
    return run(repo, [('qf' + n, container('queue', a, fn(*O), FN), True, 'a functor that cannot be copied, on queue<%s>' % a) for n, a in cfgs('queue')]
        + [('sf' + n, container('stack', a, fn(*O + ('consume_all_atomic', 'consume_all_atomic_reversed')), FN), True, 'a functor that cannot be copied, on stack<%s>' % a) for n, a in cfgs('stack')]
        + [('rf' + n, container('spsc_queue', a, fn(*O), FN), True, 'a functor that cannot be copied, on spsc_queue<%s>' % a) for n, a in R])

BUILDS = [('g++', '-std=c++14'), ('g++', '-std=c++23', '-DNDEBUG', '-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC'), ('clang++', '-std=c++14', '-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC'),
          ('clang++', '-std=c++2b', '-DBOOST_LOCKFREE_FORCE_STD_ATOMIC'), ('clang++', '-std=c++20', '-fno-exceptions', '-fno-rtti')]
def C24(repo):
    global run
    real, all = run, []
    try:
        run = lambda repo, probes: probes
        for f in (C03, C12, C13, C14, C18, C23): all += f(repo)
    finally: run = real
    return run(repo, [('b%d_%d' % (i, j), p[1], p[2], p[3] + ' (%s)' % ' '.join(b), b + ('-fsyntax-only',)) for i, b in enumerate(BUILDS) for j, p in enumerate(all)])
