"""C35: predefined macros and headers describe the implementation: every value and type they name agrees with the target's, in every
order of inclusion and in every context a constant can be used in."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

PRE = """int printf(const char *, ...);
#ifdef VF_REF
#define LLG , long long: 8, unsigned long long: 9, signed char: 2
#else
#define LLG
#endif
#define TI(x) _Generic((x), _Bool: 1, char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, float: 10, double: 11, long double: 12, void *: 13, char *: 14 LLG, default: 99)
static void vf_b(const char *n, const char *k, int t, const void *p, int z) { const unsigned char *q = p; printf("%s %s t%d", n, k, t); while (z--) printf(" %02x", q[z]); printf("\\n"); }
"""

# header: (integer or floating macros, types that are scalars, other object types, names of function-like macros or expressions)
FL = "DECIMAL_DIG DIG EPSILON HAS_SUBNORM MANT_DIG MAX MAX_10_EXP MAX_EXP MIN MIN_10_EXP MIN_EXP TRUE_MIN".split()
IN = [f"{a}INT{b}{n}_{m}" for a in ("", "U") for b in ("", "_LEAST", "_FAST") for n in (8, 16, 32, 64) for m in (("MIN", "MAX") if not a else ("MAX",))] + "INTPTR_MIN INTPTR_MAX UINTPTR_MAX INTMAX_MIN INTMAX_MAX UINTMAX_MAX PTRDIFF_MIN PTRDIFF_MAX SIG_ATOMIC_MIN SIG_ATOMIC_MAX SIZE_MAX WCHAR_MIN WCHAR_MAX WINT_MIN WINT_MAX".split()
IT = [f"{a}int{b}{n}_t" for a in ("", "u") for b in ("", "_least", "_fast") for n in (8, 16, 32, 64)] + "intptr_t uintptr_t intmax_t uintmax_t".split()
AT = "bool char schar uchar short ushort int uint long ulong llong ullong char16_t char32_t wchar_t intptr_t uintptr_t size_t ptrdiff_t intmax_t uintmax_t".split() + [f"{a}int_{b}{n}_t" for a in ("", "u") for b in ("least", "fast") for n in (8, 16, 32, 64)]
H = {
    "float.h": ([f"{p}_{m}" for p in ("FLT", "DBL", "LDBL") for m in FL] + "FLT_RADIX FLT_ROUNDS FLT_EVAL_METHOD DECIMAL_DIG".split(), [], [], []),
    "stddef.h": (["NULL"], ["size_t", "ptrdiff_t", "wchar_t"], ["max_align_t"], ["offsetof(struct vfs, d)", "offsetof(struct vfs, d[2].c)", "offsetof(struct vfs, d[1].b[3])", "offsetof(struct vfs, u.y)", "offsetof(union vfu, z)"]),
    "stdbool.h": (["true", "false", "__bool_true_false_are_defined"], ["bool"], [], ["(bool)0.5", "!true", "true + true"]),
    "stdalign.h": (["__alignas_is_defined", "__alignof_is_defined"], [], [], ["alignof(double)", "alignof(char)", "alignof(long double)", "({ alignas(32) char x; (long)&x % 32; })", "({ struct { char a; alignas(16) char b; } s; sizeof s; })"]),
    "stdarg.h": ([], [], [], ["({ va_list a; sizeof a; })"]),
    "stdnoreturn.h": ([], [], [], []),
    "stdatomic.h": ("memory_order_relaxed memory_order_consume memory_order_acquire memory_order_release memory_order_acq_rel memory_order_seq_cst".split(), ["atomic_" + a for a in AT], ["atomic_flag", "memory_order"], ["({ atomic_int x = ATOMIC_VAR_INIT(3); x; })", "({ atomic_flag f = ATOMIC_FLAG_INIT; atomic_flag_test_and_set(&f); })", "kill_dependency(5L)"]),
    "limits.h": ("CHAR_BIT SCHAR_MIN SCHAR_MAX UCHAR_MAX CHAR_MIN CHAR_MAX MB_LEN_MAX SHRT_MIN SHRT_MAX USHRT_MAX INT_MIN INT_MAX UINT_MAX LONG_MIN LONG_MAX ULONG_MAX LLONG_MIN LLONG_MAX ULLONG_MAX PATH_MAX NAME_MAX SSIZE_MAX IOV_MAX".split(), [], [], []),
    "stdint.h": (IN, IT, [], [f"{m}({v})" for m in ("INT8_C", "INT16_C", "INT32_C", "INT64_C", "UINT8_C", "UINT16_C", "UINT32_C", "UINT64_C", "INTMAX_C", "UINTMAX_C") for v in ("1", "100")]),
    "inttypes.h": (["INTMAX_MAX"], ["intmax_t"], ["imaxdiv_t"], ["(PRId64)[0]", "(PRIxPTR)[1]", "sizeof(PRIu32)", "sizeof(SCNd8)", "sizeof(PRIiMAX)"]),
    "stdio.h": ("BUFSIZ EOF FILENAME_MAX FOPEN_MAX L_tmpnam SEEK_SET SEEK_CUR SEEK_END TMP_MAX _IOFBF _IOLBF _IONBF".split(), ["size_t"], ["FILE", "fpos_t"], []),
    "stdlib.h": ("EXIT_FAILURE EXIT_SUCCESS RAND_MAX".split(), ["size_t", "wchar_t"], ["div_t", "ldiv_t", "lldiv_t"], ["sizeof(div(7, 2))"]),
    "string.h": ([], ["size_t"], [], ["strlen(\"abc\")"]),
    "errno.h": ("EDOM EILSEQ ERANGE ENOENT EINTR EAGAIN EINVAL ENOMEM".split(), [], [], ["(errno = 3, errno)"]),
    "signal.h": ("SIGABRT SIGFPE SIGILL SIGINT SIGSEGV SIGTERM SA_RESTART SIG_BLOCK".split(), ["sig_atomic_t"], ["sigset_t", "struct sigaction", "siginfo_t"], ["(long)SIG_IGN", "(long)SIG_ERR", "(long)SIG_DFL"]),
    "time.h": (["CLOCKS_PER_SEC", "TIME_UTC"], ["time_t", "clock_t"], ["struct tm", "struct timespec"], []),
    "wchar.h": (["WCHAR_MIN", "WCHAR_MAX", "WEOF"], ["wchar_t", "wint_t"], ["mbstate_t"], ["L\"ab\"[1]", "sizeof(L\"ab\")"]),
    "wctype.h": ([], ["wint_t", "wctype_t"], ["wctrans_t"], []),
    "uchar.h": ([], ["char16_t", "char32_t"], [], ["sizeof(u\"ab\")", "sizeof(U\"ab\")"]),
    "ctype.h": ([], [], [], ["toupper('a')", "isdigit('7') != 0", "isalpha('7') != 0"]),
    "math.h": ("FP_NAN FP_ZERO M_PI M_E MATH_ERRNO MATH_ERREXCEPT".split(), ["float_t", "double_t"], [], []),
    "setjmp.h": ([], [], ["jmp_buf", "sigjmp_buf"], []),
    "locale.h": ("LC_ALL LC_CTYPE LC_NUMERIC".split(), [], ["struct lconv"], []),
    "fenv.h": ("FE_INVALID FE_DIVBYZERO FE_OVERFLOW FE_UNDERFLOW FE_INEXACT FE_TONEAREST FE_TOWARDZERO FE_ALL_EXCEPT".split(), [], ["fenv_t", "fexcept_t"], []),
    "assert.h": ([], [], [], ["({ assert(1 == 1); 5; })"]),
    "threads.h": ("thrd_success thrd_error mtx_plain mtx_recursive".split(), [], ["mtx_t", "cnd_t", "once_flag"], []),
    "unistd.h": ("STDIN_FILENO _SC_PAGESIZE F_OK R_OK".split(), ["ssize_t", "off_t", "pid_t"], [], ["getpid() > 0"]),
    "sys/types.h": ([], "size_t ssize_t off_t pid_t uid_t gid_t mode_t dev_t ino_t nlink_t blksize_t blkcnt_t time_t int8_t int64_t".split(), ["fd_set", "pthread_t"], []),
    "sys/stat.h": ("S_IFMT S_IFREG S_IRUSR S_IRWXO".split(), ["mode_t"], ["struct stat"], ["S_ISDIR(0040755)", "S_ISREG(0040755)"]),
    "fcntl.h": ("O_RDONLY O_WRONLY O_RDWR O_CREAT O_TRUNC O_NONBLOCK F_GETFL".split(), [], ["struct flock"], []),
    "pthread.h": ("PTHREAD_CREATE_JOINABLE PTHREAD_MUTEX_RECURSIVE".split(), [], ["pthread_mutex_t", "pthread_cond_t", "pthread_attr_t", "pthread_rwlock_t"], ["({ pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; sizeof m; })"]),
    "sys/wait.h": ("WNOHANG".split(), [], [], ["WIFEXITED(0x300)", "WEXITSTATUS(0x300)", "WIFSIGNALED(9)", "WTERMSIG(9)"]),
    "sys/socket.h": ("AF_INET SOCK_STREAM SOL_SOCKET".split(), ["socklen_t", "sa_family_t"], ["struct sockaddr", "struct msghdr", "struct sockaddr_storage"], []),
    "netinet/in.h": ("IPPROTO_TCP INADDR_ANY".split(), ["in_port_t"], ["struct sockaddr_in", "struct in6_addr", "struct sockaddr_in6"], ["htons(0x1234)", "ntohl(0x12345678u)"]),
    "dirent.h": ("DT_DIR DT_REG".split(), [], ["struct dirent"], []),
    "sys/time.h": (["ITIMER_REAL"], ["suseconds_t"], ["struct timeval", "struct itimerval"], []),
}
BUNDLED = ["float.h", "stdalign.h", "stdarg.h", "stdatomic.h", "stdbool.h", "stddef.h", "stdnoreturn.h"]
STRUCTS = "struct vfs { char a; struct { int b[4]; char c; } d[3]; union { char x; long y; } u; }; union vfu { int y; long z; };\n"

def obs(h):
    """statements that print all that header h names"""
    m, sc, ot, ex = H[h]
    o = []
    for x in m:
        o.append((x, f"{{ typeof({x}) v = {x}; vf_b(\"{x}\", \"value\", TI({x}), &v, sizeof v); static typeof({x}) s = {x}; vf_b(\"{x}\", \"static\", sizeof(({x})), &s, sizeof s); }}"))
    for t in sc:
        o.append((t, f"{{ {t} v; v = -1; long r[] = {{ sizeof({t}), _Alignof({t}), (v < 0), ({t})1.5 * 10, TI((typeof(v + 0))0) }}; vf_b(\"{t}\", \"type\", TI(v), r, sizeof r); }}"))
    for t in ot:
        o.append((t, f"{{ {t} v; long r[] = {{ sizeof({t}), _Alignof({t}), sizeof v, sizeof(struct {{ char c; {t} m; }}) }}; vf_b(\"{t}\", \"object\", 0, r, sizeof r); }}"))
    for k, e in enumerate(ex):
        o.append((e, f"{{ typeof({e}) v = {e}; vf_b(\"{h}#{k}\", \"expr\", TI(v), &v, sizeof v); }}"))
    return o

def prog(hs, ob, ifs=()):
    return "".join(f"#include <{h}>\n" for h in hs) + PRE + STRUCTS + "".join(ifs) + "int main(void) {\n" + "\n".join(s for _, s in ob) + "\nreturn 0; }\n"

def compile_run(cmd, txt, d, tag):
    """-> (ok, output or message)"""
    s = os.path.join(d, tag + ".c")
    open(s, "w").write(txt)
    rc, o, e = sh(cmd + ["-c", s, "-o", os.path.join(d, tag + ".o")], cwd=d)
    if rc != 0:
        return False, "rejected: " + " ".join(e.decode(errors="replace").split())[-300:]
    rc, o, e = sh([GCC, "-static", os.path.join(d, tag + ".o"), "-o", os.path.join(d, tag), "-lm", "-lpthread"], cwd=d)
    if rc != 0:
        return False, "does not link: " + e.decode(errors="replace")[-300:]
    rc, o, e = sh(QEMU + [os.path.join(d, tag)], cwd=d)
    os.remove(os.path.join(d, tag))
    return (rc == 0, o.decode()) if rc == 0 else (False, f"exit status {rc}")

REF = [GCC] + GCC_FLAGS + ["-DVF_REF", "-D_GNU_SOURCE"]

def compare(c, key, hs, got, want, txt):
    if not got[0]:
        c.violation(key, f"{' '.join(hs)}: {got[1]}", txt)
        return
    for a, b in itertools.zip_longest(got[1].splitlines(), want.splitlines()):
        if a != b:
            c.violation(key + " " + (b or a or "").split(" t")[0], f"the headers or macros give '{a}', the implementation has '{b}' (name, use, kind of type, bytes from the highest)", txt)

def headers(c, toycc, d):
    T = [toycc, "-D_GNU_SOURCE"]
    ref, ifs = {}, {}
    def one(h):
        ob = obs(h)
        r = compile_run(REF, prog([h], ob), d, "ref-" + h.replace("/", "_"))
        assert r[0], (h, r)
        # integer macros are also usable in #if, if the reference can do so
        ls = []
        for l in r[1].splitlines():
            n, k, t, *bs = l.split()
            if k == "value" and int(t[1:]) <= 9 and not n.startswith(("memory_", "thrd", "mtx", "FP_", "DT_", "ITIMER", "PTHREAD", "IPPROTO", "SOCK")) and n not in ("true", "false", "NULL"):
                v = int("".join(bs), 16)
                sg = int(t[1:]) in (2, 4, 6, 8)
                if sg and v >> (8 * len(bs) - 1):
                    v -= 1 << (8 * len(bs))
                x = f"{v}" if v > -2**63 else "(-9223372036854775807 - 1)"
                ls.append((n, f"#if ({n}) == {x}{'u' if v >= 2**63 else ''}\n#else\n#error \"#if {n}\"\n#endif\n"))
        good = [l for _, l in ls if sh([GCC, "-fsigned-char", "-w", "-fsyntax-only", "-D_GNU_SOURCE", "-x", "c", "-"], inp=(f"#include <{h}>\n" + l).encode())[0] == 0]
        return h, r[1], good
    for h, r, g in pmap(one, H):
        ref[h], ifs[h] = r, g
    def single(h):
        txt = prog([h], obs(h), ifs[h])
        compare(c, f"header {h}", [h], compile_run(T, txt, d, "s-" + h.replace("/", "_")), ref[h], txt)
        c.count(1, len(obs(h)) + len(ifs[h]), 1)
    pmap(single, H)
    # every ordered pair, the first included again afterwards; triples of the bundled ones
    seqs = [(a, b, a) for a in H for b in H if a != b] + [p for p in itertools.permutations(BUNDLED, 3)]
    if c.thorough:
        core = BUNDLED + ["limits.h", "stdint.h", "stdio.h", "stdlib.h", "wchar.h", "signal.h", "sys/types.h", "time.h"]
        seqs += list(itertools.permutations(core, 3))
    def pair(q):
        u = list(dict.fromkeys(q))
        ob = [o for h in u for o in obs(h)]
        txt = prog(q, ob, [x for h in u for x in ifs[h]])
        tag = "p-" + "-".join(h.replace("/", "_") for h in q)
        compare(c, "headers " + " ".join(q), q, compile_run(T, txt, d, tag), "".join(ref[h] for h in u), txt)
        c.count(1, len(ob), 1)
        for x in (".c", ".o"):
            if os.path.exists(os.path.join(d, tag + x)): os.remove(os.path.join(d, tag + x))
    pmap(pair, seqs)
    c.extra["header sequences"] = len(seqs) + len(H)

# macros that identify the compiler, or describe features toycc does not claim
IDENT = re.compile(r"__(GNUC|VERSION|GXX|STRICT_ANSI|GCC_|.*IS_IEC_60559|FLT16|FLT32|FLT64|FLT128|DEC|.*NORM_MAX|NO_INLINE|USER_LABEL|REGISTER_PREFIX|OPTIMIZE|PRAGMA|STDC_IEC|STDC_ISO|SSP|pic|PIC|pie|PIE|HAVE_SPEC|SIZEOF_INT128|STDC_VERSION|riscv_cmodel)")

def predefined(c, toycc, d):
    """every macro the target's reference compiler predefines and toycc too: the same value, type, and truth"""
    names = {}
    rc, o, e = sh([GCC, "-std=gnu17", "-fsigned-char", "-dM", "-E", "-x", "c", "/dev/null"])
    for l in o.decode().splitlines():
        m = re.match(r"#define (\w+) (.*)$", l)
        if m and not IDENT.match(m[1]):
            names[m[1]] = m[2]
    names.setdefault("__CHAR_UNSIGNED__", None)
    names.setdefault("__STDC_NO_VLA__", None); names.setdefault("__STDC_NO_ATOMICS__", None); names.setdefault("__STDC_NO_THREADS__", None); names.setdefault("__BIG_ENDIAN__", None); names.setdefault("__riscv_e", None); names.setdefault("__riscv_float_abi_soft", None); names.setdefault("__OPTIMIZE__", None)
    ob = []
    for n, v in sorted(names.items()):
        if v is None:
            o = f"\n#ifdef {n}\nprintf(\"{n} defined\\n\");\n#else\nprintf(\"{n} not defined\\n\");\n#endif\n"
        elif n.endswith("_TYPE__"):
            o = f"{{ {n} v; v = -1; long r[] = {{ sizeof({n}), _Alignof({n}), v < 0 }}; vf_b(\"{n}\", \"type\", TI(v), r, sizeof r); }}"
        elif re.match(r"[-(\d.]|__\w+_MAX__|__\w+__$|\(*\(double", v):
            o = f"{{ typeof({n}) v = {n}; vf_b(\"{n}\", \"value\", TI({n}), &v, sizeof v); static typeof({n}) s = {n}; vf_b(\"{n}\", \"static\", 0, &s, sizeof s); }}\n" \
                + (f"\n#if ({n}) == ({v.replace('__WCHAR_MAX__', '0x7fffffff').replace('__INT_MAX__', '0x7fffffff')})\nprintf(\"{n} if 1\\n\");\n#else\nprintf(\"{n} if 0\\n\");\n#endif\n" if re.fullmatch(r"[-()\dxXa-fA-FuUlL ]+", v) and re.search(r"\d", v) else "")
        else:
            o = f"\n#ifdef {n}\nprintf(\"{n} defined\\n\");\n#else\nprintf(\"{n} not defined\\n\");\n#endif\n"
        if v is not None and not n.startswith("__"):
            o = f"\n#ifdef {n}\n" + o + f"\n#else\nprintf(\"{n} not defined\\n\");\n#endif\n"
        ob.append((n, o))
    # what they state, against what the program does
    ob.append(("truth", "{ long r[] = { __SIZEOF_INT__ == sizeof(int), __SIZEOF_LONG__ == sizeof(long), __SIZEOF_LONG_LONG__ == sizeof(long long), __SIZEOF_SHORT__ == sizeof(short), __SIZEOF_POINTER__ == sizeof(void *), __SIZEOF_FLOAT__ == sizeof(float), __SIZEOF_DOUBLE__ == sizeof(double), __SIZEOF_LONG_DOUBLE__ == sizeof(long double), __SIZEOF_SIZE_T__ == sizeof(sizeof 1), __SIZEOF_PTRDIFF_T__ == sizeof((char *)0 - (char *)0), __SIZEOF_WCHAR_T__ == sizeof(L'a'),"
               " (char)-1 < 0, (__WCHAR_TYPE__)-1 < 0 == (typeof(L'a'))-1 < 0, (unsigned char)-1 == __SCHAR_MAX__ * 2 + 1, (unsigned)__INT_MAX__ * 2 + 1 == -1u, (unsigned long)__LONG_MAX__ * 2 + 1 == -1ul, ({ int x = 1; *(char *)&x; }) == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__), (float)__FLT_MAX__ * 2 > __FLT_MAX__ * 1.5f, __BIGGEST_ALIGNMENT__ >= _Alignof(long double), __CHAR_BIT__ * sizeof(long) == 64 }; vf_b(\"truth\", \"value\", 0, r, sizeof r); }"))
    ref = compile_run([x if x != "-std=gnu11" else "-std=gnu17" for x in REF], prog([], ob), d, "pre-ref")
    assert ref[0], ref
    txt = prog([], ob)
    got = compile_run([toycc], txt, d, "pre")
    if not got[0]:      # find the macro it is about
        for n, o in ob:
            g = compile_run([toycc], prog([], [(n, o)]), d, "pre1")
            if not g[0]:
                c.violation(f"predefined {n}", g[1], prog([], [(n, o)]))
    else:
        compare(c, "predefined", [], got, ref[1], txt)
    c.count(len(ob), len(ob) * 2, len(ob))
    c.extra["predefined macros"] = len(ob)

def body(c):
    c.assumptions = ["riscv64 gcc -fsigned-char describes the target", "macros that identify the compiler are not compared"]
    toycc = c.build()
    d = os.path.join(c.scratch, "w"); os.makedirs(d)
    predefined(c, toycc, d)
    headers(c, toycc, d)
    c.sample("stddef.h: wchar_t and L'a' have one type"); c.sample("headers limits.h stdint.h limits.h"); c.sample("__CHAR_UNSIGNED__ is defined if and only if (char)-1 > 0")
    c.extra["bound"] = "every macro gcc predefines for the target; every macro and type of 36 headers as value, static initialiser and #if operand; every ordered pair of headers with the first repeated; all triples of the 7 bundled headers (thorough: of 15 headers)"

main("C35", body)
