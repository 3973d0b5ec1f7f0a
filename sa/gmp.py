"""Effects of GMP functions (resolved symbol names) on their arguments.
For each function: string per argument: o=mpz written only, i=mpz read only, b=both, n=scalar/pointer not an mpz,
W=memory buffer written, R=memory buffer read, I=initialised, C=cleared, p=optional mpz (may be NULL) written."""
T = {}
def _t(names, sig):
    for n in names.split(): T["__gmpz_" + n] = sig
_t("init", "I"); _t("clear", "C"); _t("init2", "In"); _t("init_set", "Ii"); _t("init_set_ui init_set_si init_set_d", "In"); _t("init_set_str", "Inn")
_t("inits", "I*"); _t("clears", "C*")
_t("set abs neg sqrt com nextprime", "oi")
_t("set_ui set_si set_d", "on"); _t("set_str", "onn"); _t("swap", "bb"); _t("realloc2", "bn"); _t("realloc", "bn"); _t("_realloc", "bn")
_t("add sub mul gcd lcm and ior xor divexact cdiv_q cdiv_r fdiv_q fdiv_r tdiv_q tdiv_r mod", "oii")
_t("add_ui sub_ui mul_ui mul_si mul_2exp pow_ui divexact_ui fdiv_q_2exp fdiv_r_2exp tdiv_q_2exp tdiv_r_2exp cdiv_q_2exp cdiv_r_2exp fdiv_q_ui fdiv_r_ui tdiv_q_ui tdiv_r_ui cdiv_q_ui cdiv_r_ui gcd_ui root", "oin")
_t("ui_sub", "oni"); _t("ui_pow_ui", "onn")
_t("addmul submul", "bii"); _t("addmul_ui submul_ui", "bin")
_t("powm powm_sec", "oiii"); _t("powm_ui", "oini"); _t("invert", "oii"); _t("gcdext", "pppii")
_t("tdiv_qr fdiv_qr cdiv_qr", "ooii"); _t("tdiv_qr_ui fdiv_qr_ui cdiv_qr_ui", "ooin"); _t("sqrtrem", "ooi")
_t("tdiv_ui fdiv_ui cdiv_ui", "in")
_t("cmp cmpabs jacobi", "ii"); _t("legendre kronecker", "ii"); _t("cmp_ui cmp_si cmpabs_ui cmp_d cmpabs_d", "in"); _t("kronecker_si kronecker_ui", "in"); _t("si_kronecker ui_kronecker", "ni")
_t("divisible_p", "ii"); _t("divisible_ui_p divisible_2exp_p", "in"); _t("congruent_p", "iii")
_t("get_ui get_si get_d size popcount perfect_square_p perfect_power_p fits_ulong_p fits_slong_p fits_uint_p fits_sint_p", "i")
_t("get_d_2exp", "Wi"); _t("get_str", "Wni"); _t("sizeinbase tstbit scan0 scan1 getlimbn probab_prime_p", "in")
_t("setbit clrbit combit", "bn"); _t("import", "onnnnnR"); _t("export", "WWnnnni")
_t("limbs_read", "i"); _t("limbs_write limbs_modify", "bn"); _t("limbs_finish", "bn"); _t("roinit_n", "oRn")
_t("urandomb urandomm rrandomb", "obn"); _t("out_str", "nni"); _t("inp_str", "onn"); _t("hamdist", "ii")
_t("root", "oin"); _t("rootrem", "ooin"); _t("fac_ui fib_ui primorial_ui", "on")
def is_gmp(callee): return bool(callee) and (callee.startswith("__gmpz_") or callee.startswith("__gmpn_") or callee.startswith("__gmp"))
def roles(inst):
    """list of (argument value, role) or None if the function is unknown"""
    sig = T.get(inst.callee)
    if sig is None: return None
    if sig.endswith("*"):
        return [(a, sig[0]) for a in inst.args if a != ("n",)]
    return list(zip(inst.args, sig))
MAY_THROW_C = set()
