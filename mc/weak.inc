// Operational model of C++ atomics: every write appends an event to the history of its location; a thread may read any
// event not older than its view; acquire/release/fences move views and vector clocks (happens-before). No event is ever
// inserted before another one and no read sees a write executed later (no load buffering); element bytes are in addition
// checked for happens-before ordering, which covers those reorderings for them.
// C++ gives no meaning to a plain write racing with an atomic read (links of freed nodes lie over the atomic links of
// queue nodes). Such a write is taken to become visible no earlier than what its thread did before (its view travels with
// it, as on every hardware model), but it never establishes happens-before.
static inline void vmax( View a, const View b ) { for ( u32 i = 0; i <= ngid; i++ ) if ( b[i] > a[i] ) a[i] = b[i]; }
static inline void cmax( u16* a, const u16* b ) { for ( int i = 0; i < MAXT; i++ ) if ( b[i] > a[i] ) a[i] = b[i]; }
#define WT ( g->W.t[E.cur] )
static int gid_of( u32 off )
{
    u32 gi = off / O.gran;
    if ( !gidmap[gi] ) { if ( ngid + 2 > NG ) internal( "too many locations" ); gidmap[gi] = ++ngid; gidaddr[ngid] = gi * O.gran; }
    return gidmap[gi];
}
static Ev& new_ev( int gid )
{
    Weak& W = g->W;
    if ( W.nev + 2 > MAXEV ) internal( "too many events" );
    int n = ++W.nev; Ev& e = g->ev[n]; memset( &e, 0, sizeof e );
    e.prev = W.last[gid]; W.last[gid] = n;
    memcpy( e.val, arena + gidaddr[gid], O.gran );
    return e;
}
static Ev& w_last( int gid )       // the initial event holds what was there before the threads started
{
    if ( !g->W.last[gid] ) { Ev& e = new_ev( gid ); e.tid = 0xff; }
    return g->ev[g->W.last[gid]];
}
#define EACH_GID( off, n ) for ( u32 o_ = ( off ) / O.gran * O.gran, gid = gid_of( o_ ); o_ < ( off ) + ( n ); o_ += O.gran, gid = o_ < ( off ) + ( n ) ? gid_of( o_ ) : 0 )
static void w_touch( u32 off, u32 n ) { EACH_GID( off, n ) w_last( gid ); }
static bool is_acq( int mo ) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool is_rel( int mo ) { return mo == 3 || mo == 4 || mo == 5; }
static void w_sync( const Ev& e, int gid, int mo )
{
    WThr& T = WT;
    if ( e.idx > T.V[gid] ) T.V[gid] = e.idx;
    if ( e.rel ) { if ( is_acq( mo ) ) { vmax( T.V, e.mv ); cmax( T.vc, e.mvc ); } else { vmax( T.acqV, e.mv ); cmax( T.acqvc, e.mvc ); } }
    if ( mo == 5 && e.idx > g->W.sc[gid] ) g->W.sc[gid] = e.idx;
}
// chooses an event at least as new as the floor, optionally different from a given value; returns it
static Ev& w_choose( int gid, int mo, u32 off, u32 n, const void* notval, bool& stale )
{
    Ev* c[20]; int k = 0; Ev& l = w_last( gid ); stale = false;
    u8 floor = WT.V[gid]; if ( mo == 5 ) { if ( g->W.sc[gid] > floor ) floor = g->W.sc[gid]; if ( g->W.scf[gid] > floor ) floor = g->W.scf[gid]; }
    c[k++] = &l;
    if ( E.stale_used < O.stale )
        for ( Ev* e = &l; e->idx > floor && k < 20; ) {
            e = &g->ev[e->prev];
            if ( notval && !memcmp( e->val + off % O.gran, notval, n ) ) continue;
            if ( !memcmp( e->val + off % O.gran, c[k - 1]->val + off % O.gran, n ) && ( mo < 0 || ( !c[k - 1]->rel && !e->rel ) ) ) continue;
            c[k++] = e;
        }
    int i = ask( k, CH_READ );
    if ( i ) { E.stale_used++; stale = true; if ( verbose ) mc_log( "   reads an older value" ); }
    return *c[i];
}
static void w_load( u32 off, u32 n, int mo, void* v )
{
    if ( n > (u32)O.gran ) { EACH_GID( off, n ) w_sync( w_last( gid ), gid, mo ); memcpy( v, arena + off, n ); return; }
    int gid = gid_of( off ); bool st; Ev& e = w_choose( gid, mo, off, n, 0, st );
    memcpy( v, e.val + off % O.gran, n ); w_sync( e, gid, mo );
}
static void w_load_latest( u32 off, u32 n, int mo ) { EACH_GID( off, n ) w_sync( w_last( gid ), gid, mo ); }
static void w_rmw_read( u32 off, u32 n, int mo ) { w_load_latest( off, n, mo ); }
static void w_cas_fail( u32 off, u32 n, int mo, void* v, void* cmp )
{
    if ( n > (u32)O.gran ) { w_load_latest( off, n, mo ); return; }
    int gid = gid_of( off ); bool st; Ev& e = w_choose( gid, mo, off, n, cmp, st );
    memcpy( v, e.val + off % O.gran, n ); w_sync( e, gid, mo );
}
static void w_store( u32 off, u32 n, int mo, int rmw, bool )
{
    WThr& T = WT; bool rel = is_rel( mo );
    EACH_GID( off, n ) {
        int p = g->W.last[gid]; u8 idx = g->ev[p].idx; if ( idx == 255 ) internal( "too many events of one location" );
        Ev& e = new_ev( gid ); e.idx = idx + 1; e.tid = E.cur; T.V[gid] = e.idx;
        if ( rel ) { e.rel = 1; memcpy( e.mv, T.V, NG ); memcpy( e.mvc, T.vc, sizeof e.mvc ); }
        else { memcpy( e.mv, T.relV, NG ); memcpy( e.mvc, T.relvc, sizeof e.mvc ); for ( int i = 0; i < MAXT; i++ ) if ( e.mvc[i] ) e.rel = 1; if ( e.rel ) e.mv[gid] = e.idx; }
        if ( rmw && g->ev[p].rel ) { e.rel = 1; vmax( e.mv, g->ev[p].mv ); cmax( e.mvc, g->ev[p].mvc ); }
        if ( mo == 5 ) g->W.sc[gid] = e.idx;
    }
    if ( rel ) T.vc[E.cur]++;
}
static void w_fence( int mo )
{
    WThr& T = WT;
    if ( is_acq( mo ) ) { vmax( T.V, T.acqV ); cmax( T.vc, T.acqvc ); }
    if ( mo == 5 ) { vmax( T.V, g->W.scf ); vmax( T.V, g->W.sc ); vmax( g->W.scf, T.V ); }
    if ( is_rel( mo ) ) { memcpy( T.relV, T.V, NG ); memcpy( T.relvc, T.vc, sizeof T.vc ); T.vc[E.cur]++; }
}
// --- plain accesses
static int payload_of( u32 v, int& part )       // element id encoded in a 4-byte word, or -1
{
    if ( ( v & ~0xffu ) == 0xA5C30000u ) { part = 0; return v & 0xff; }
    if ( ( ~v & ~0xffu ) == 0xA5C30000u ) { part = 1; return ~v & 0xff; }
    return -1;
}
static void w_plain_write( u32 off, u32 n )
{
    w_touch( off, n );
    WThr& T = WT; int me = E.cur;
    for ( u32 i = off / 4; i <= ( off + n - 1 ) / 4; i++ ) {
        Race& r = g->race[i];
        for ( int u = 0; u < E.nthreads; u++ ) if ( u != me ) {
            if ( r.r[u] > T.vc[u] )
                mc_violation( V_RACE, "element storage at +%u overwritten although thread %d's reading of the element it obtained from there does not happen before", i * 4, u );
            WThr& U = g->W.t[u];
            for ( int j = 0; j < U.npr; j++ ) if ( U.pr[j].gi == i && U.pr[j].clk > T.vc[u] ) U.pr[j].bad |= 2;
        }
        r.wtid = me; r.wclk = T.vc[me];
    }
}
static void w_plain_store_done( u32 off, u32 n )
{
    EACH_GID( off, n ) {
        int p = g->W.last[gid]; u8 idx = g->ev[p].idx; if ( idx == 255 ) internal( "too many events of one location" );
        Ev& e = new_ev( gid ); e.idx = idx + 1; e.tid = E.cur; WT.V[gid] = e.idx;
        e.rel = 2; memcpy( e.mv, WT.V, NG );
    }
}
static void w_plain_read( u32 off, u32 n )
{
    WThr& T = WT; bool anystale = false;
    EACH_GID( off, n ) {
        u32 lo = o_ > off ? o_ : off, hi = o_ + O.gran < off + n ? o_ + O.gran : off + n;
        bool st; Ev& e = w_choose( gid, -1, lo, hi - lo, 0, st );
        if ( st ) {
            if ( npatch >= 8 ) internal( "patches" );
            patch[npatch].gi4 = o_ / 4; patch[npatch].n = O.gran; memcpy( patch[npatch].val, arena + o_, O.gran ); npatch++;
            memcpy( arena + o_, e.val, O.gran ); anystale = true;
        }
        if ( e.idx > T.V[gid] ) T.V[gid] = e.idx;
    }
    for ( u32 i = ( off + 3 ) / 4; i * 4 + 4 <= off + n; i++ ) {
        int part; int id = payload_of( ( (u32*)arena )[i], part ); if ( id < 0 ) continue;
        Race& r = g->race[i];
        u8 bad = anystale || ( r.wclk && r.wtid != E.cur && r.wclk > T.vc[r.wtid] );
        int j = 0; while ( j < T.npr && !( T.pr[j].id == id && T.pr[j].part == part ) ) j++;
        if ( j == T.npr ) { if ( T.npr >= NPR ) internal( "too many element reads" ); T.npr++; }
        T.pr[j] = { i, T.vc[E.cur], (u8)id, (u8)part, bad };
    }
}
// --- operations
#define BIT( a, i ) ( ( a )[( i ) >> 6] >> ( ( i ) & 63 ) & 1 )
#define SETB( a, i ) ( ( a )[( i ) >> 6] |= 1ull << ( ( i ) & 63 ) )
static void weak_invoke( )
{
    Thr& T = CUR; WThr& W = WT; W.npr = 0;
    if ( T.d.kind == K_PUSH ) for ( int i = 0; i < T.d.n; i++ ) { SETB( g->W.ann, ( T.d.vals[0] + i ) ); g->W.by[( T.d.vals[0] + i )] = E.cur; }
}
static void weak_respond( int count, const u8* vals, int nv )
{
    Thr& T = CUR; Weak& W = g->W; WThr& U = WT;
    switch ( T.d.kind ) {
    case K_PUSH:
        for ( int i = 0; i < T.d.n; i++ ) {
            if ( i < count ) SETB( W.acc, ( T.d.vals[0] + i ) );
            else { SETB( W.ref, ( T.d.vals[0] + i ) ); if ( BIT( W.popped, ( T.d.vals[0] + i ) ) ) mc_violation( V_LIN, "element %u delivered although its push was refused", ( T.d.vals[0] + i ) ); }
        }
        break;
    case K_POP: case K_SUBPOP: case K_POPALL: case K_POPALLR: case K_POPN: case K_FRONT:
        for ( int i = 0; i < nv; i++ ) {
            u8 v = vals[i];
            if ( !BIT( W.ann, v ) || BIT( W.ref, v ) ) mc_violation( V_LIN, "element %u delivered that was never pushed", v );
            if ( BIT( W.popped, v ) ) mc_violation( V_LIN, "element %u delivered twice", v );
            if ( E.phase == PH_CONC )
                for ( int j = 0; j < U.npr; j++ ) if ( U.pr[j].id == v ) {
                    if ( U.pr[j].bad & 1 ) mc_violation( V_RACE, "element %u delivered although its construction by the pusher does not happen before the reading", v );
                    if ( U.pr[j].bad & 2 ) mc_violation( V_RACE, "element %u: its storage was overwritten although the reading by the thread that obtained it does not happen before", v );
                    g->race[U.pr[j].gi].r[E.cur] = U.pr[j].clk;
                }
            if ( T.d.kind == K_FRONT ) continue;
            SETB( W.popped, v );
            if ( S.lifo == 0 ) {
                int p = W.by[v];
                if ( U.lastpop[p] > v ) mc_violation( V_LIN, "element %u delivered after element %u, which the same thread pushed later", v, U.lastpop[p] );
                U.lastpop[p] = v;
            }
        }
        if ( E.phase == PH_FINAL && !nv && T.d.kind != K_FRONT )
            for ( int i = 0; i < 256; i++ ) if ( BIT( W.acc, i ) && !BIT( W.popped, i ) ) mc_violation( V_LIN, "element %d was pushed but is lost", i );
        break;
    }
    U.npr = 0;
}
static void w_start( )
{
    Weak& W = g->W;
    for ( int t = 0; t < MAXT; t++ ) W.t[t].vc[t] = 1;
}
static void w_join( ) {}
static u64 w_hash( )
{
    Weak& W = g->W; View mn; u16 mc[MAXT]; u64 h = 0;
    memset( mn, 255, NG ); memset( mc, 255, sizeof mc );
    for ( int t = 0; t < E.nthreads; t++ ) if ( E.t[t].state != ST_DONE ) {
        for ( u32 i = 0; i <= ngid; i++ ) if ( W.t[t].V[i] < mn[i] ) mn[i] = W.t[t].V[i];
        for ( int u = 0; u < MAXT; u++ ) if ( W.t[t].vc[u] < mc[u] ) mc[u] = W.t[t].vc[u];
    }
    auto hv = [&]( const View v ) { u64 x = 3; for ( u32 i = 1; i <= ngid; i++ ) x = x * 0x100000001b3ull + ( v[i] > mn[i] ? v[i] - mn[i] : 0 ); return mix( x ); };
    auto hc = [&]( const u16* c ) { u64 x = 5; for ( int i = 0; i < E.nthreads; i++ ) x = x * 0x100000001b3ull + ( c[i] > mc[i] ? c[i] - mc[i] : 0 ); return mix( x ); };
    for ( int t = 0; t < E.nthreads; t++ ) if ( E.t[t].state != ST_DONE ) {
        WThr& T = W.t[t];
        u64 x = mix2( mix2( hv( T.V ), hv( T.acqV ) ), hv( T.relV ) );
        x = mix2( x, mix2( mix2( hc( T.vc ), hc( T.acqvc ) ), hc( T.relvc ) ) );
        for ( int j = 0; j < T.npr; j++ ) x += mix2( T.pr[j].gi * 4096 + T.pr[j].id * 16 + T.pr[j].part * 8 + T.pr[j].bad, T.pr[j].clk > mc[t] ? T.pr[j].clk - mc[t] : 0 );
        u64 y = 0; memcpy( &y, T.lastpop, MAXT ); x = mix2( x, y );
        h = mix2( h, x );
    }
    for ( u32 i = 1; i <= ngid; i++ ) if ( W.last[i] ) {
        u64 x = i;
        for ( Ev* e = &g->ev[W.last[i]]; ; e = &g->ev[e->prev] ) {
            u64 a, b; memcpy( &a, e->val, 8 ); memcpy( &b, e->val + 8, 8 );
            x = mix2( x, mix2( mix2( a, b ), e->rel ) ); if ( e->rel ) x = mix2( x, mix2( hv( e->mv ), hc( e->mvc ) ) );
            if ( e->idx <= mn[i] ) break;
            if ( !e->prev ) break;
        }
        x = mix2( x, ( W.sc[i] > mn[i] ? W.sc[i] - mn[i] : 0 ) * 256 + ( W.scf[i] > mn[i] ? W.scf[i] - mn[i] : 0 ) );
        h += mix( x );
    }
    for ( int t = 0; t < MAXT; t++ ) for ( u32 i = segbase( t ) / 4; i < E.brk[t] / 4; i++ ) {
        Race& r = g->race[i]; u64 x = 0;
        if ( r.wclk > mc[r.wtid] ) x = ( r.wtid + 1 ) * 65536 + r.wclk - mc[r.wtid];
        for ( int u = 0; u < E.nthreads; u++ ) if ( r.r[u] > mc[u] ) x = mix2( x, u * 65536 + r.r[u] - mc[u] );
        if ( x ) h += mix2( i, x );
    }
    for ( int i = 0; i < 4; i++ ) h = mix2( h, mix2( mix2( W.ann[i], W.acc[i] ), mix2( W.ref[i], W.popped[i] ) ) );
    return h;
}
extern "C" void mc_payload( const void*, size_t ) {}
extern "C" void mc_commit( void ) {}
