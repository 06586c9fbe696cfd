"""Programs that must not compile (each beside a twin that differs only in the misuse) and programs that must."""
PRE = r'''
#include "MessageQueue.hpp"
#include "ObjectPool.hpp"
#include "BlockPool.hpp"
#include "RingBufferGuarded.hpp"
#include "RingBufferSimple.hpp"
#include "Semaphore.hpp"
#include "Mutex.hpp"
#include <cstdint>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
using namespace ReiserRT::Core;
struct Base { virtual ~Base() noexcept = default; int a{ 0 }; };
struct Derived : Base { int b{ 1 }; };
struct Stray { int a{ 0 }; };
struct Flat { int a{ 0 }; };
struct FlatMore : Flat { int b{ 0 }; };
struct Hidden : private Base { };
struct BadDtor { int a{ 0 }; ~BadDtor() noexcept( false ) { } };
struct GoodDtor { int a{ 0 }; ~GoodDtor() { } };
struct NoDtor { int a{ 0 }; private: ~NoDtor() = default; };
struct NoDefault { explicit NoDefault( int x ) : a{ x } { } int a; };
struct VBad { int a{ 0 }; virtual ~VBad() noexcept( false ) { } };
struct VBadD : VBad { };
struct Msg : MessageBase { int a{ 0 }; void dispatch() override { } };
struct NotMsg { int a{ 0 }; void dispatch() { } };
struct HiddenMsg : private Msg { };
enum class Colour : int { Red };
using Row = int[ 2 ];
template< typename T > T & any();
'''
# (group, name, twin, misuse): each is the body of a function, or, when it begins with '@', file scope text
NEG = []


def neg(group, name, twin, misuse):
    NEG.append((group, name, twin, misuse))


RES = [('Semaphore', 'Semaphore', '1'), ('Mutex', 'Mutex', ''), ('RingBufferSimple<int>', 'RingBufferSimple< int >', '4'),
       ('RingBufferSimple<int*>', 'RingBufferSimple< int * >', '4'), ('RingBufferSimple<void*>', 'RingBufferSimple< void * >', '4'),
       ('RingBufferGuarded<int>', 'RingBufferGuarded< int >', '4'), ('RingBufferGuarded<int*>', 'RingBufferGuarded< int * >', '4'),
       ('RingBufferGuarded<void*>', 'RingBufferGuarded< void * >', '4'), ('ObjectPool', 'ObjectPool< Base >', '4'),
       ('BlockPool', 'BlockPool< double >', '4, 4'), ('MessageQueue', 'MessageQueue', '4, 64')]
for n, t, a in RES:
    mk = '%s x%s;' % (t, '{ %s }' % a if a else '')
    neg('copy', '%s copied' % n, mk + ' %s & y{ x }; (void)y;' % t, mk + ' %s y( x ); (void)y;' % t)
    neg('copy', '%s moved' % n, mk + ' %s & y{ x }; (void)y;' % t, mk + ' %s y( std::move( x ) ); (void)y;' % t)
    neg('copy', '%s assigned' % n, 'auto & x = any< %s >(); auto & y = any< %s >(); auto p = &x; p = &y; (void)p;' % (t, t),
        'auto & x = any< %s >(); auto & y = any< %s >(); x = y;' % (t, t))
    neg('copy', '%s move assigned' % n, 'auto & x = any< %s >(); auto & y = any< %s >(); auto p = &x; p = &y; (void)p;' % (t, t),
        'auto & x = any< %s >(); auto & y = any< %s >(); x = std::move( y );' % (t, t))
for n, t, a in [('MessageQueueBase', 'MessageQueueBase', '4, 64, false'), ('MemoryPoolBase', 'MemoryPoolBase', '4, 64')]:
    pre = '@struct Mine : %s { Mine() : %s( %s ) { } };' % (t, t, a)
    neg('copy', 'class derived from %s copied' % n, pre + ' void f() { Mine x; Mine & y( x ); (void)y; }', pre + ' void f() { Mine x; Mine y( x ); (void)y; }')
    neg('copy', 'class derived from %s moved' % n, pre + ' void f() { Mine x; Mine & y( x ); (void)y; }', pre + ' void f() { Mine x; Mine y( std::move( x ) ); (void)y; }')
    neg('copy', 'class derived from %s assigned' % n, pre + ' void f() { Mine x, y; Mine * p = &x; p = &y; (void)p; }', pre + ' void f() { Mine x, y; x = y; }')
neg('copy', 'AutoDispatchLock copied', 'auto x = any< MessageQueue >().getAutoDispatchLock(); auto y( std::move( x ) );',
    'auto x = any< MessageQueue >().getAutoDispatchLock(); auto y( x );')
neg('copy', 'AutoDispatchLock assigned', 'auto x = any< MessageQueue >().getAutoDispatchLock(); auto y = any< MessageQueue >().getAutoDispatchLock(); x = std::move( y );',
    'auto x = any< MessageQueue >().getAutoDispatchLock(); auto y = any< MessageQueue >().getAutoDispatchLock(); x = y;')
neg('copy', 'object pointer copied', 'auto x = any< ObjectPool< Base > >().createObj< Derived >(); auto y( std::move( x ) );',
    'auto x = any< ObjectPool< Base > >().createObj< Derived >(); auto y( x );')
neg('copy', 'block pointer copied', 'auto x = any< BlockPool< int > >().getBlock(); auto y( std::move( x ) );',
    'auto x = any< BlockPool< int > >().getBlock(); auto y( x );')

P = 'auto & p = any< ObjectPool< %s > >(); '
neg('unrelated', 'object of an unrelated type', P % 'Base' + 'auto o = p.createObj< Derived >();', P % 'Base' + 'auto o = p.createObj< Stray >();')
neg('unrelated', 'object of a base type of the pooled type', P % 'Derived' + 'auto o = p.createObj< Derived >();', P % 'Derived' + 'auto o = p.createObj< Base >();')
neg('unrelated', 'object of a privately derived type', P % 'Base' + 'auto o = p.createObj< Derived >();', P % 'Base' + 'auto o = p.createObj< Hidden >();')
neg('unrelated', 'object pointer from a pointer of an unrelated type', 'ObjectPoolPtrType< Base > b{ any< ObjectPool< Base > >().createObj< Base >() };',
    'ObjectPoolPtrType< Base > b{ any< ObjectPool< Stray > >().createObj< Stray >() };')
neg('unrelated', 'object pointer from a pointer into a pool of a derived, flat type', 'ObjectPoolPtrType< Flat > b{ any< ObjectPool< Flat > >().createObj< Flat >() };',
    'ObjectPoolPtrType< Flat > b{ any< ObjectPool< FlatMore > >().createObj< FlatMore >() };')
neg('unrelated', 'mutable object pointer from one to constant', 'any< ObjectPoolPtrType< const Base > >() = any< ObjectPool< Base > >().createObj< Base >();',
    'ObjectPoolPtrType< Base > b{ std::move( any< ObjectPoolPtrType< const Base > >() ) };')
neg('unrelated', 'block pointer from a block of derived objects', 'BlockPoolPtrType< Base > b{ any< BlockPool< Base > >().getBlock() };',
    'BlockPoolPtrType< Base > b{ any< BlockPool< Derived > >().getBlock() };')
neg('unrelated', 'mutable block pointer from one to constant', 'any< BlockPoolPtrType< const int > >() = any< BlockPool< int > >().getBlock();',
    'BlockPoolPtrType< int > b{ std::move( any< BlockPoolPtrType< const int > >() ) };')

neg('destroyable', 'derived object in a pool of a type without virtual destructor', P % 'Flat' + 'auto o = p.createObj< Flat >();', P % 'Flat' + 'auto o = p.createObj< FlatMore >();')
neg('destroyable', 'pooled object whose destructor may throw', P % 'GoodDtor' + 'auto o = p.createObj< GoodDtor >();', P % 'BadDtor' + 'auto o = p.createObj< BadDtor >();')
neg('destroyable', 'derived pooled object whose destructor may throw', P % 'Base' + 'auto o = p.createObj< Derived >();', P % 'VBad' + 'auto o = p.createObj< VBadD >();')
neg('destroyable', 'pooled object whose destructor is private', P % 'GoodDtor' + 'auto o = p.createObj< GoodDtor >();', P % 'NoDtor' + 'auto o = p.createObj< NoDtor >();')
B = 'BlockPool< %s > p{ 4, 4 }; auto b = p.getBlock();'
neg('destroyable', 'blocks of a type whose destructor may throw', B % 'GoodDtor', B % 'BadDtor')
neg('destroyable', 'blocks of a type whose destructor is private', B % 'GoodDtor', B % 'NoDtor')
neg('destroyable', 'blocks of a type without default constructor', B % 'GoodDtor', B % 'NoDefault')

Q = 'auto & q = any< MessageQueue >(); '
neg('message', 'put what is not a message', Q + 'q.put( Msg{} );', Q + 'q.put( NotMsg{} );')
neg('message', 'emplace what is not a message', Q + 'q.emplace< Msg >();', Q + 'q.emplace< NotMsg >();')
neg('message', 'put a privately derived message', Q + 'q.put( Msg{} );', Q + 'q.put( HiddenMsg{} );')
neg('message', 'put a scalar', Q + 'q.put( Msg{} );', Q + 'q.put( 1 );')
neg('message', 'emplace the abstract message', Q + 'q.emplace< Msg >();', Q + 'q.emplace< MessageBase >();')

for t in ('RingBufferSimple', 'RingBufferGuarded'):
    r = t + '< %s > r{ 4 }; r.put( any< %s >() ); auto v = r.get(); (void)v;'
    for what, good, bad in (('classes', 'int', 'Stray'), ('arrays', 'int', 'Row'), ('references', 'int', 'int &'), ('constant scalars', 'int', 'const int'),
                            ('constant pointers', 'int *', 'int * const'), ('constant enumerators', 'Colour', 'const Colour'), ('strings', 'const char *', 'std::string')):
        neg('scalar', '%s of %s' % (t, what), r % (good, good), r % (bad, bad))
    neg('scalar', t + ' of classes, all members', '@template class ReiserRT::Core::%s< long >;' % t, '@template class ReiserRT::Core::%s< Stray >;' % t)
    neg('scalar', t + ' handing out mutable pointers to what is constant', t + '< const int * > r{ 4 }; const int * c = r.get(); (void)c;',
        t + '< const int * > r{ 4 }; int * c = r.get(); (void)c;')
    neg('scalar', t + ' taking in pointers to what is constant', t + '< const int * > r{ 4 }; r.put( static_cast< const int * >( nullptr ) );',
        t + '< int * > r{ 4 }; r.put( static_cast< const int * >( nullptr ) );')
    neg('scalar', t + ' taking in pointers to another type', t + '< int * > r{ 4 }; r.put( static_cast< int * >( nullptr ) );',
        t + '< int * > r{ 4 }; r.put( static_cast< long * >( nullptr ) );')

# raw access: reachable from a derived class (the twin), not from outside
ACC = [('MessageQueue', ': MessageQueue( 4, 64 )', [
            ('rawWaitAndGet', 'void * r = %s.rawWaitAndGet(); (void)r;'), ('rawPutAndNotify', '%s.rawPutAndNotify( nullptr );'),
            ('cookedWaitAndGet', 'auto r = %s.cookedWaitAndGet(); (void)r;'), ('cookedPutAndNotify', '%s.cookedPutAndNotify( nullptr );'),
            ('dispatchMessage', '%s.dispatchMessage( nullptr );')]),
       ('MessageQueueBase', ': MessageQueueBase( 4, 64, false )', [
            ('rawWaitAndGet', 'void * r = %s.rawWaitAndGet(); (void)r;'), ('rawPutAndNotify', '%s.rawPutAndNotify( nullptr );'),
            ('cookedWaitAndGet', 'auto r = %s.cookedWaitAndGet(); (void)r;'), ('cookedPutAndNotify', '%s.cookedPutAndNotify( nullptr );'),
            ('dispatchMessage', '%s.dispatchMessage( nullptr );')]),
       ('ObjectPool< Base >', ': ObjectPool< Base >( 4 )', [
            ('getRawBlock', 'void * r = %s.getRawBlock(); (void)r;'), ('returnRawBlock', '%s.returnRawBlock( nullptr );')]),
       ('BlockPool< int >', ': BlockPool< int >( 4, 4 )', [
            ('getRawBlock', 'void * r = %s.getRawBlock(); (void)r;'), ('returnRawBlock', '%s.returnRawBlock( nullptr );')]),
       ('MemoryPoolBase', ': MemoryPoolBase( 4, 64 )', [
            ('getRawBlock', 'void * r = %s.getRawBlock(); (void)r;'), ('returnRawBlock', '%s.returnRawBlock( nullptr );')])]
for t, init, fs in ACC:
    for f, use in fs:
        cls = '@struct Mine : %s { Mine() %s { } void inside(); };' % (t, init)
        neg('raw', '%s::%s from outside' % (t, f), cls + ' void Mine::inside() { %s }' % (use % '(*this)'),
            cls + ' void outside( %s & x ) { %s }' % (t, use % 'x'))
for t in ('ObjectPoolDeleter< Base >', 'BlockPoolDeleter< int[] >'):
    cls = '@struct Mine : %s { void inside(); };' % t
    neg('raw', t + '::returnRawBlock from outside', cls + ' void Mine::inside() { returnRawBlock( nullptr ); }', cls + ' void outside( %s & x ) { x.returnRawBlock( nullptr ); }' % t)
    neg('raw', t + '::pool from outside', cls + ' void Mine::inside() { pool = nullptr; }', cls + ' void outside( %s & x ) { x.pool = nullptr; }' % t)
neg('raw', 'a dispatch lock made by hand', Q + 'auto l = q.getAutoDispatchLock();', Q + 'MessageQueue::AutoDispatchLock l( &q );')
neg('raw', 'deleting a pool through its base', 'delete &any< ObjectPool< Base > >();', 'delete static_cast< MemoryPoolBase * >( &any< ObjectPool< Base > >() );')
neg('raw', 'deleting a queue through its base', 'delete &any< MessageQueue >();', 'delete static_cast< MessageQueueBase * >( &any< MessageQueue >() );')


def text(body):
    return PRE + (body[1:] if body[0] == '@' else 'void f() { %s }' % body) + '\n'


# ---- programs that must compile: (name, oldest dialect, text)
POS = []


def pos(name, txt, since=11):
    POS.append((name, since, txt))


pos('object pool pointers forward declared', r'''
#include "ObjectPoolFwd.hpp"
class MyBase;
using MyBasePtrType = ReiserRT::Core::ObjectPoolPtrType< MyBase >;
using MyBaseSharedPtrType = std::shared_ptr< const MyBase >;
void accept( MyBasePtrType && p );
MyBasePtrType & pick( MyBasePtrType & a, MyBasePtrType & ) { return a; }
struct Holder { MyBasePtrType * p; MyBaseSharedPtrType s; };
struct Api { virtual ~Api() = default; virtual void give( MyBasePtrType p ) = 0; };
#include "ObjectPool.hpp"
class MyBase { public: virtual ~MyBase() = default; };
void accept( MyBasePtrType && p ) { MyBasePtrType q{ std::move( p ) }; MyBaseSharedPtrType s = std::move( q ); }
static_assert( std::is_same< MyBasePtrType, ReiserRT::Core::ObjectPool< MyBase >::ObjectPtrType >::value, "" );
static_assert( std::is_same< MyBasePtrType, decltype( std::declval< ReiserRT::Core::ObjectPool< MyBase > & >().createObj< MyBase >() ) >::value, "" );
''')
pos('block pool pointers forward declared', r'''
#include "BlockPoolFwd.hpp"
class MyType;
using MyTypeBlockPtrType = ReiserRT::Core::BlockPoolPtrType< MyType >;
void accept( MyTypeBlockPtrType && p );
struct Holder { MyTypeBlockPtrType * p; };
#include "BlockPool.hpp"
class MyType { int a{ 0 }; };
void accept( MyTypeBlockPtrType && p ) { MyTypeBlockPtrType q{ std::move( p ) }; }
static_assert( std::is_same< MyTypeBlockPtrType, ReiserRT::Core::BlockPool< MyType >::BlockPtrType >::value, "" );
''')
pos('block pointers shared', r'''
#include "BlockPool.hpp"
class MyType { int a{ 0 }; };
using Shared = std::shared_ptr< const MyType[] >;
Shared f( ReiserRT::Core::BlockPoolPtrType< MyType > & p ) { Shared s = std::move( p ); return s; }
Shared g( ReiserRT::Core::BlockPool< MyType > & p ) { Shared s = p.getBlock(); return s; }
''', 17)
pos('object pools', PRE + r'''
#include <vector>
struct Abstract { virtual ~Abstract() = default; virtual int get() const = 0; };
struct One : Abstract { explicit One( int x = 0, const char * = "" ) : a{ x } { } int get() const override { return a; } int a; };
struct Two : Stray, virtual Abstract { Two( std::unique_ptr< int > p, int & r ) : q{ std::move( p ) }, s{ r } { } int get() const override { return s; } std::unique_ptr< int > q; int & s; };
struct Agg { int a; double b; };
struct ThrowingCtor { explicit ThrowingCtor( int ) { } ~ThrowingCtor() noexcept { } };
void use( ObjectPool< Abstract >::ObjectPtrType p );
void f() {
    ObjectPool< Abstract > p{ 16, sizeof( Two ) };
    ObjectPool< Agg > a{ 16 };
    auto x = p.createObj< One >( 1, "a" );
    int i = 0;
    ObjectPool< Abstract >::ObjectPtrType y = p.createObj< Two >( std::unique_ptr< int >{ new int }, i );
    auto z = a.createObj< Agg >( 1, 2.0 );
    z->a = 3; (*z).b = 1;
    x = std::move( y ); y = nullptr; y.reset(); x.swap( y );
    if ( x && x != nullptr && x.get() ) i = x->get();
    std::vector< ObjectPoolPtrType< Abstract > > v; v.push_back( std::move( x ) ); v.emplace_back( p.createObj< One >() ); v.resize( 4 ); v.erase( v.begin() );
    use( p.createObj< One >() );
    std::shared_ptr< Abstract > s = p.createObj< One >(); std::shared_ptr< const Abstract > t = std::move( v[ 0 ] );
    ObjectPool< ThrowingCtor > tc{ 2 }; auto w = tc.createObj< ThrowingCtor >( 1 );
    ObjectPoolPtrType< Abstract > e; ObjectPoolPtrType< Abstract > n{ nullptr }; e = std::move( n );
    const ObjectPool< Abstract > & c = p; size_t sz = c.getSize(); (void)sz;
    auto st = c.getRunningStateStatistics(); uint32_t r = st.runningCount, l = st.lowWatermark; sz = st.size; (void)r; (void)l;
    ObjectPool< Abstract >::RunningStateStats st2 = p.getRunningStateStatistics(); st = st2;
    std::unique_ptr< ObjectPool< Abstract > > own{ new ObjectPool< Abstract >{ 4 } };
    auto d = x.get_deleter(); auto d2 = d; d = d2; ObjectPoolDeleter< Abstract > d3; d3 = std::move( d );
}
''')
pos('pointers to constant objects', PRE + r'''
struct Holder { ObjectPoolPtrType< const Base > p; };
void f( ObjectPool< Base > & p ) {
    ObjectPoolPtrType< const Base > c = p.createObj< Derived >(); ObjectPoolPtrType< const Base > d{ p.createObj< Base >() };
    c = p.createObj< Base >(); c = std::move( d ); int a = c->a; (void)a; c.reset(); std::shared_ptr< const Base > s = std::move( c );
}
void g( BlockPool< int > & p, BlockPool< Stray > & q ) {
    BlockPoolPtrType< const int > c = p.getBlock(); BlockPoolPtrType< const Stray > d{ q.getBlock() }; c = p.getBlock(); int a = c[ 1 ] + d[ 0 ].a; (void)a;
    size_t n = c.get_deleter().getNumElements(); (void)n; c.reset(); d = nullptr;
}
static_assert( !std::is_assignable< decltype( *std::declval< ObjectPoolPtrType< const Base > & >() ), Base >::value, "constant" );
''')
pos('block pools', PRE + r'''
#include <vector>
struct Agg { int a[ 4 ]; double b; };
struct Throwing { Throwing() { if ( !this ) throw 1; } ~Throwing() { } int a{ 0 }; };
template< typename T > void blocks() {
    BlockPool< T > p{ 4, 24 }; auto b = p.getBlock(); b[ 0 ] = b[ 1 ]; const auto & cb = b; T x = cb[ 2 ]; (void)x;
    typename BlockPool< T >::BlockPtrType c = p.getBlock(); c = std::move( b ); b = nullptr; c.reset(); c.swap( b ); if ( b && c != nullptr && b.get() ) { }
    size_t n = b.get_deleter().getNumElements(); const BlockPool< T > & cp = p; n += cp.getSize() + cp.getRunningStateStatistics().size; (void)n;
    std::vector< BlockPoolPtrType< T > > v; v.push_back( p.getBlock() ); v.emplace_back(); BlockPoolPtrType< T > e{ nullptr }; e = p.getBlock();
    BlockPoolDeleter< T[] > d; d = b.get_deleter(); std::unique_ptr< BlockPool< T > > own{ new BlockPool< T >{ 1, 1 } };
}
void f() { blocks< double >(); blocks< char >(); blocks< int * >(); blocks< const char * >(); blocks< Colour >(); blocks< Agg >(); blocks< Throwing >(); blocks< std::shared_ptr< int > >(); }
''')
pos('simple ring buffers', PRE + r'''
struct Unknown;
template< typename T > void ring( T v ) {
    RingBufferSimple< T > r{ 8 }; r.put( v ); T x = r.get(); (void)x; size_t n = r.getNumBits() + r.getSize() + r.getMask(); (void)n;
    const RingBufferSimple< T > & c = r; n = c.getSize() + c.getNumBits() + c.getMask(); auto p = std::unique_ptr< RingBufferSimple< T > >{ new RingBufferSimple< T >( 16 ) };
}
void f() { ring< int >( 1 ); ring< uint8_t >( 1 ); ring< double >( 1 ); ring< bool >( true ); ring< Colour >( Colour::Red ); ring< int * >( nullptr ); ring< const char * >( "a" );
    ring< void * >( nullptr ); ring< Unknown * >( nullptr ); ring< int ( * )[ 2 ] >( nullptr ); ring< int Stray::* >( nullptr ); ring< int ** >( nullptr ); }
struct Owner { RingBufferSimple< Base * > r{ 4 }; };
''')
pos('guarded ring buffers', PRE + r'''
struct Unknown;
template< typename T > void ring( T v ) {
    RingBufferGuarded< T > r{ 8 }; bool b = r.put( v ); T x = r.get(); (void)x; (void)b; r.abort(); const RingBufferGuarded< T > & c = r;
    size_t n = c.getSize() + c.getNumBits() + c.getMask(); (void)n;
    RingBufferGuarded< T > q{ 8, true }; q.prime( [ v ]( size_t ) -> T { return v; } ); q.abort(); q.flush( []( T ) { } );
    auto p = std::unique_ptr< RingBufferGuarded< T > >{ new RingBufferGuarded< T >( 16, false ) };
}
template< typename T > void ptrs( T v ) {
    RingBufferGuarded< T > r{ 8 }; bool b = r.put( v ); T x = r.get(); (void)x; (void)b; r.abort(); r.flush( []( void * ) noexcept { } );
    RingBufferGuarded< T > q{ 8, true }; q.prime( [ ]( size_t ) -> void * { return nullptr; } ); size_t n = q.getSize(); (void)n;
}
void f() { ring< int >( 1 ); ring< uint8_t >( 1 ); ring< double >( 1 ); ring< bool >( true ); ring< Colour >( Colour::Red ); ring< void * >( nullptr );
    ptrs< int * >( nullptr ); ptrs< const char * >( "a" ); ptrs< Unknown * >( nullptr ); ptrs< int ** >( nullptr ); }
struct Owner { RingBufferGuarded< Base * > r{ 4, true }; };
''')
pos('semaphores', PRE + r'''
#include <functional>
void g( int & );
void f() {
    Semaphore s{ 1 }, t{ 0, 4 }, u( 3 ); int n = 0; s.take(); s.give();
    t.take( [ &n ]() { ++n; } ); t.give( [ &n ]() noexcept { --n; } ); t.take( Semaphore::FunctionType{ [ n ]() { (void)n; } } ); auto l = [ & ]() { g( n ); }; t.give( std::ref( l ) );
    std::function< void() > h = std::bind( g, std::ref( n ) ); t.take( h ); t.take( std::cref( h ) ); size_t c = s.getAvailableCount(); (void)c; s.abort();
    std::unique_ptr< Semaphore > own{ new Semaphore{ 1, 1 } };
}
struct Owner { Semaphore a{ 0 }; Mutex m; Semaphore b{ 0, 1 }; };
''')
pos('mutexes', PRE + r'''
#include <condition_variable>
#include <mutex>
void f() {
    Mutex m, n; { std::lock_guard< Mutex > l{ m }; } { std::unique_lock< Mutex > l{ m, std::try_to_lock }; if ( l.owns_lock() ) l.unlock(); } { std::unique_lock< Mutex > l{ m, std::defer_lock }; l.lock(); }
    std::lock( m, n ); bool b = m.try_lock(); (void)b; m.unlock(); n.unlock();
    std::condition_variable_any c; std::unique_lock< Mutex > l{ m }; c.wait( l, []() { return true; } ); Mutex::NativeHandleType h = m.native_handle(); (void)h;
    static_assert( std::is_same< Mutex::NativeHandleType, std::mutex::native_handle_type >::value, "" );
}
''')
pos('message queues', PRE + r'''
#include <vector>
struct Text : MessageBase { explicit Text( std::unique_ptr< int > p, int n = 0 ) : q{ std::move( p ) }, m{ n } { } void dispatch() override { } const char * name() const override { return "Text"; } std::unique_ptr< int > q; int m; };
struct Agg : MessageBase { Agg( int x, const std::vector< int > & y ) : a{ x }, b{ y } { } Agg( const Agg & ) = default; Agg( Agg && ) = default; Agg & operator =( Agg && ) = default; void dispatch() override; int a; std::vector< int > b; };
struct Wide : Stray, virtual MessageBase { void dispatch() override { } };
template< int N > struct Sized : MessageBase { char c[ N ]; void dispatch() override { } };
void f() {
    MessageQueue q{ 16, 256, true }, r( 4, 64 ), s{ 4, sizeof( Text ), false };
    q.put( Text{ std::unique_ptr< int >{}, 1 } ); q.emplace< Text >( std::unique_ptr< int >{} ); std::vector< int > v; q.emplace< Agg >( 1, v ); Agg a{ 1, v }; q.put( std::move( a ) );
    q.put( Wide{} ); q.emplace< Wide >(); q.emplace< Sized< 4 > >(); Agg b{ 2, v }; q.emplace< Agg >( b ); const Agg & cb = b; q.emplace< Agg >( cb );
    q.getAndDispatch(); int n = 0; q.getAndDispatch( [ &n ]() { ++n; } ); MessageQueue::WakeupCallFunctionType w = [ &n ]() { --n; }; q.getAndDispatch( w ); auto l = [ & ]() { }; q.getAndDispatch( std::ref( l ) );
    q.purge(); const char * nm = q.getNameOfLastMessageDispatched(); (void)nm; q.abort();
    MessageQueue::RunningStateStats st = q.getRunningStateStatistics(); auto st2 = q.getRunningStateStatistics(); st = st2; size_t z = st.size; uint32_t c = st.runningCount + st.highWatermark; (void)z; (void)c;
    std::unique_ptr< MessageQueue > own{ new MessageQueue{ 4, 64, true } };
}
MessageQueue::AutoDispatchLock take( MessageQueue & q ) { return q.getAutoDispatchLock(); }
void locks( MessageQueue & q ) {
    auto l = q.getAutoDispatchLock(); l.unlock(); l.lock(); MessageQueue::AutoDispatchLock m{ std::move( l ) }; l = std::move( m ); m = take( q );
    MessageQueue::AutoDispatchLock::NativeHandleType h = m.native_handle(); (void)h; m.unlock(); { std::lock_guard< MessageQueue::AutoDispatchLock > g{ m }; }
    std::vector< MessageQueue::AutoDispatchLock > v; v.push_back( std::move( l ) ); std::swap( m, v[ 0 ] );
}
void named( const MessageBase & m ) { const char * n = m.name(); (void)n; }
class Task { public: Task() : q{ 4, 64, true } { } private: MessageQueue q; };
''')
pos('errors', PRE + r'''
#include <stdexcept>
template< typename E > void one() { try { throw E{ "text" }; } catch ( const std::runtime_error & e ) { const char * w = e.what(); (void)w; } try { throw E( "x" ); } catch ( const E & ) { }
    static_assert( std::is_nothrow_copy_constructible< E >::value, "copying an exception must not throw" );
    static_assert( std::is_convertible< E *, std::runtime_error * >::value, "the errors of the library are caught as runtime errors" ); }
template< typename... > struct Apart { }; template< typename E > void apart( Apart< E > ) { }
template< typename E, typename F, typename... R > void apart( Apart< E, F, R... > ) {
    static_assert( !std::is_base_of< E, F >::value && !std::is_base_of< F, E >::value, "errors are told apart by their types" ); apart( Apart< E, R... >{} ); }
void all( Apart<> ) { }
template< typename E, typename... R > void all( Apart< E, R... > ) { apart( Apart< E, R... >{} ); all( Apart< R... >{} ); }
void g() { all( Apart< RingBufferUnderflow, RingBufferOverflow, RingBufferStateError, SemaphoreAborted, SemaphoreOverflow, ObjectPoolElementSizeError,
    MessageQueueElementSizeError, MessageQueueDispatchLockingDisabled >{} ); }
void f() { one< RingBufferUnderflow >(); one< RingBufferOverflow >(); one< RingBufferStateError >(); one< SemaphoreAborted >(); one< SemaphoreOverflow >(); one< ObjectPoolElementSizeError >();
    one< MessageQueueElementSizeError >(); one< MessageQueueDispatchLockingDisabled >(); }
''')
# (name, condition): declared not to throw
NOTHROW = []
for t in ('ObjectPoolPtrType< Base >', 'ObjectPoolPtrType< const Base >', 'ObjectPoolPtrType< Flat >', 'BlockPoolPtrType< int >', 'BlockPoolPtrType< const int >', 'BlockPoolPtrType< GoodDtor >',
          'MessageQueue::AutoDispatchLock'):
    NOTHROW += [(t + ' is moved', 'std::is_nothrow_move_constructible< %s >::value && std::is_nothrow_move_assignable< %s >::value' % (t, t)),
                (t + ' is destroyed', 'std::is_nothrow_destructible< %s >::value' % t)]
for t, a in (('ObjectPoolDeleter< Base >', 'Base *'), ('ObjectPoolDeleter< const Base >', 'const Base *'), ('BlockPoolDeleter< int[] >', 'int *'), ('BlockPoolDeleter< GoodDtor[] >', 'GoodDtor *')):
    NOTHROW += [(t + ' releases', 'noexcept( std::declval< %s & >()( std::declval< %s >() ) )' % (t, a)),
                (t + ' is copied or moved', 'std::is_nothrow_copy_constructible< %s >::value && std::is_nothrow_move_constructible< %s >::value && std::is_nothrow_copy_assignable< %s >::value' % (t, t, t))]
for t in ('Semaphore', 'Mutex', 'RingBufferSimple< int >', 'RingBufferGuarded< int >', 'RingBufferGuarded< int * >', 'ObjectPool< Base >', 'BlockPool< int >', 'MessageQueue', 'Msg',
          'RingBufferUnderflow', 'SemaphoreAborted'):
    NOTHROW.append((t + ' is destroyed', 'std::is_nothrow_destructible< %s >::value' % t))
# what client and library code both rely on
LAYOUT = ['Semaphore', 'Mutex', 'RingBufferSimple< int >', 'RingBufferSimple< char >', 'RingBufferSimple< int * >', 'RingBufferGuarded< int >', 'RingBufferGuarded< int * >', 'ObjectPool< Base >', 'BlockPool< int >',
          'MessageQueue', 'MessageQueue::AutoDispatchLock', 'MessageQueue::RunningStateStats', 'ObjectPool< Base >::RunningStateStats', 'ObjectPoolPtrType< Base >', 'BlockPoolPtrType< int >', 'MessageBase',
          'Derived', 'Msg', 'RingBufferUnderflow']
