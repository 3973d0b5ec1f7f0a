// Probes for P09: the synchronisation code of the two-thread squaring pipeline with its role fixed, so that the
// compiler's own constant folding decides what each role does.  Nothing here is ever run.
#include "vdf_client.cpp"

template<bool slave> static thread_state p09_state(int pair, uint64 cs, uint64 lf) {
    thread_state t; t.reset(); t.is_slave = slave; t.pairindex = pair; t.counter_start = cs; t.last_fence = lf;
    return t;
}
#define ROLE(N, S) \
bool p09_fence_##N(int pair, uint64 lf, uint64 v, uint64* out) { thread_state t = p09_state<S>(pair, 0, lf); bool r = t.fence_absolute(v); *out = t.last_fence; return r; } \
bool p09_fencerel_##N(int pair, uint64 cs, int d) { thread_state t = p09_state<S>(pair, cs, 0); return t.fence(d); } \
bool p09_advance_##N(int pair, uint64 v) { thread_state t = p09_state<S>(pair, 0, 0); return t.advance_absolute(v); } \
bool p09_advancerel_##N(int pair, uint64 cs, int d) { thread_state t = p09_state<S>(pair, cs, 0); return t.advance(d); } \
void p09_raise_##N(int pair) { thread_state t = p09_state<S>(pair, 0, 0); t.raise_error(); } \
bool p09_haserror_##N(int pair) { thread_state t = p09_state<S>(pair, 0, 0); return t.has_error(); } \
bool p09_call0_##N(square_state_type& s) { return s.call_phase(0, S); } \
bool p09_call1_##N(square_state_type& s) { return s.call_phase(1, S); } \
bool p09_call2_##N(square_state_type& s) { return s.call_phase(2, S); } \
bool p09_call3_##N(square_state_type& s) { return s.call_phase(3, S); } \
bool p09_call4_##N(square_state_type& s) { return s.call_phase(4, S); } \
void p09_work_##N(square_state_type& s, uint64 b, uint64 n, INUDUPLListener* l) { repeated_square_fast_work(s, S, b, n, l); }
ROLE(m, false)
ROLE(s, true)
int p09_start0(square_state_type& s) { return s.get_counter_start(0); }
int p09_start1(square_state_type& s) { return s.get_counter_start(1); }
int p09_start2(square_state_type& s) { return s.get_counter_start(2); }
int p09_start3(square_state_type& s) { return s.get_counter_start(3); }
int p09_start4(square_state_type& s) { return s.get_counter_start(4); }
int p09_end() { return square_state_type::counter_end; }
int p09_phases() { return square_state_type::num_phases; }
int p09_entries() { return square_state_type::gcd_num_counter; }
