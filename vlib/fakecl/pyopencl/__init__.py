"""A stand-in for pyopencl: the real .cl kernels, compiled by clang for the host with every memory access and
arithmetic operation instrumented, run work-item by work-item in any order on buffers of an arena (see clrt.c).

Not a GPU: one device at a time, no local memory shared between work-items, IEEE single precision of the host.
`vm` is the monitor: vm.reset(...) configures devices, the filling of new buffers, the order of the work-items and
faults; vm.reports() returns what the kernels did wrong."""
import ctypes, hashlib, os, re, subprocess, threading
import numpy as np

VERSION = (2024, 1)
VERSION_TEXT = version = "2024.1"
HERE = os.path.dirname(os.path.abspath(__file__))


class Error(Exception):
    pass


class LogicError(Error):
    pass


class RuntimeError(Error):      # noqa: A001 - the name pyopencl uses
    pass


class MemoryError(Error):       # noqa: A001
    pass


class Flags(int):
    pass


class mem_flags:
    READ_WRITE, WRITE_ONLY, READ_ONLY, USE_HOST_PTR, ALLOC_HOST_PTR, COPY_HOST_PTR, HOST_WRITE_ONLY, HOST_READ_ONLY, HOST_NO_ACCESS = [1 << i for i in (0, 1, 2, 3, 4, 5, 7, 8, 9)]


class device_type:
    DEFAULT, CPU, GPU, ACCELERATOR, ALL = 1, 2, 4, 8, 0xFFFFFFFF


class device_info:
    MAX_WORK_GROUP_SIZE, MAX_MEM_ALLOC_SIZE, GLOBAL_MEM_SIZE, HOST_UNIFIED_MEMORY, NAME, LOCAL_MEM_SIZE, MAX_COMPUTE_UNITS, TYPE = range(0x1000, 0x1008)


class command_execution_status:
    COMPLETE, RUNNING, SUBMITTED, QUEUED = range(4)


class Monitor:
    """configuration and observations"""

    def __init__(self):
        self.lock = threading.RLock()
        self.lib = None
        self.dir = None
        self.progs = {}
        self.config()

    def config(self, platforms=None, fill=0, order=0, fault=None):
        """platforms: list of lists of dict(unified, alloc, mem, group); fill: 32-bit pattern of memory nothing has written;
        order: 0 forward, 1 backward, else a seed; fault(kind, name, n): called before the n-th operation of a kind, may raise, or return "skip" for a kernel that is not run"""
        self.platforms = [[dict(unified=True, alloc=1 << 28, mem=1 << 30, group=256)]] if platforms is None else platforms
        self.fill, self.order, self.fault = fill, order, fault
        self.launches, self.items, self.ops, self.refused, self.unsync = {}, 0, {}, [], []
        self.early = True
        self._platforms = None
        self.programs = 0

    def start(self):
        if self.lib is None:
            d = os.environ.get("VERIF_CL_DIR") or os.path.join(os.environ.get("TMPDIR", "/tmp"), "verifcl")
            os.makedirs(d, exist_ok=True)
            self.dir = d
            so = os.path.join(d, "clrt.so")
            if not os.path.exists(so):
                run(["gcc", "-O2", "-w", "-shared", "-fPIC", os.path.join(HERE, "clrt.c"), "-o", so + ".%d" % os.getpid()])
                os.replace(so + ".%d" % os.getpid(), so)
            L = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
            L.vm_alloc.argtypes = [ctypes.c_uint64, ctypes.c_int]
            L.vm_ptr.restype = ctypes.c_void_p
            L.vm_fill.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int]
            L.vm_write.argtypes = [ctypes.c_int, ctypes.c_void_p, ctypes.c_uint64, ctypes.c_uint64]
            L.vm_uninit.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64]
            L.vm_uninit.restype = ctypes.c_uint64
            L.vm_report.restype = ctypes.c_char_p
            L.vm_used.restype = ctypes.c_uint64
            L.vm_stats.argtypes = [ctypes.c_void_p]
            L.vm_run.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint64]
            self.lib = L
        return self.lib

    def reset(self, **kw):
        """a fresh device; every buffer of before is gone"""
        self.start().vm_reset()
        self.lib.vm_clear()
        self.config(**kw)

    def reports(self):
        """[(kind, kernel, text)] of what was seen since the last reset"""
        L = self.start()
        r = [tuple(L.vm_report(i).decode().split("|", 2)) for i in range(L.vm_reports())]
        return r + [("host", "", t) for t in self.unsync]

    def stats(self):
        a = (ctypes.c_uint64 * 4)()
        self.start().vm_stats(a)
        return dict(loads=a[0], stores=a[1], uninitialised=a[2], reports=a[3], items=self.items, launches=sum(self.launches.values()))

    def op(self, kind, name=""):
        n = self.ops[kind] = self.ops.get(kind, 0) + 1
        if self.fault is not None:
            return self.fault(kind, name, n)

    def refuse(self, exc, text):
        self.refused.append(text)
        raise exc(text)


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise LogicError("clBuildProgram failed: BUILD_PROGRAM_FAILURE\n" + r.stderr[-3000:])


vm = Monitor()


# ---------------------------------------------------------------- builtin functions of OpenCL C
def builtins():
    out = ["#define O __attribute__((overloadable))"]
    ints = ["char", "uchar", "short", "ushort", "int", "uint", "long", "ulong"]
    fl = ["float", "double"]
    vec = [2, 3, 4, 8, 16]
    un = {n: "__builtin_%s%%s(x)" % n for n in ["sqrt", "exp", "exp2", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "floor", "ceil", "trunc", "round", "rint", "fabs", "cbrt", "expm1", "log1p"]}
    bi = {n: "__builtin_%s%%s(x,y)" % n for n in ["fmin", "fmax", "fmod", "pow", "atan2", "hypot", "copysign", "fdim"]}
    sfx = {"float": "f", "double": ""}

    def lift(t, name, args, ret=None):
        """vector versions, element by element"""
        for n in vec:
            ps = ", ".join("%s%d %s" % (t, n, a) for a in args)
            calls = ", ".join("%s(%s)" % (name, ", ".join("%s.s%x" % (a, i) for a in args)) for i in range(n))
            out.append("%s%d O %s(%s){return (%s%d)(%s);}" % (ret or t, n, name, ps, ret or t, n, calls))
    for t in fl:
        for n, e in un.items():
            out.append("%s O %s(%s x){return %s;}" % (t, n, t, e % sfx[t]))
            lift(t, n, ["x"])
        for n, e in bi.items():
            out.append("%s O %s(%s x,%s y){return %s;}" % (t, n, t, t, e % sfx[t]))
            lift(t, n, ["x", "y"])
        for n, e in {"max": "x<y?y:x", "min": "y<x?y:x", "step": "y<x?0:1"}.items():
            out.append("%s O %s(%s x,%s y){return %s;}" % (t, n, t, t, e))
            lift(t, n, ["x", "y"])
        for n, e in {"fma": "__builtin_fma%s(x,y,z)" % sfx[t], "mad": "x*y+z", "mix": "x+(y-x)*z", "clamp": "x<y?y:(z<x?z:x)"}.items():
            out.append("%s O %s(%s x,%s y,%s z){return %s;}" % (t, n, t, t, t, e))
            lift(t, n, ["x", "y", "z"])
        for n in vec:
            for f in ("max", "min", "fmax", "fmin"):
                out.append("%s%d O %s(%s%d x,%s y){return %s(x,(%s%d)(y));}" % (t, n, f, t, n, t, f, t, n))
            out.append("%s%d O clamp(%s%d x,%s y,%s z){return clamp(x,(%s%d)(y),(%s%d)(z));}" % (t, n, t, n, t, t, t, n, t, n))
            out.append("%s%d O mix(%s%d x,%s%d y,%s z){return x+(y-x)*z;}" % (t, n, t, n, t, n, t))
        out.append("%s O rsqrt(%s x){return 1/__builtin_sqrt%s(x);}" % (t, t, sfx[t]))
        for n in (2, 3, 4):
            out.append("%s O dot(%s%d x,%s%d y){return %s;}" % (t, t, n, t, n, "+".join("x.s%d*y.s%d" % (i, i) for i in range(n))))
        i1 = "int"
        iv = {"float": "int", "double": "long"}[t]
        for n, e in {"isnan": "x!=x", "isinf": "__builtin_isinf(x)!=0", "isfinite": "__builtin_isfinite(x)!=0"}.items():
            out.append("%s O %s(%s x){return %s;}" % (i1, n, t, e))
            for v in vec:
                out.append("%s%d O %s(%s%d x){return (%s%d)(%s);}" % (iv, v, n, t, v, iv, v, ", ".join("-(%s)%s(x.s%x)" % (iv, n, i) for i in range(v))))
        for n, e in {"isless": "<", "isgreater": ">", "islessequal": "<=", "isgreaterequal": ">=", "isequal": "==", "isnotequal": "!="}.items():
            out.append("%s O %s(%s x,%s y){return x %s y;}" % (i1, n, t, t, e))
            for v in vec:
                out.append("%s%d O %s(%s%d x,%s%d y){return x %s y;}" % (iv, v, n, t, v, t, v, e))
        u = "u" + iv
        for m in (iv, u):
            out.append("%s O select(%s x,%s y,%s c){return c?y:x;}" % (t, t, t, m))
            for v in vec:
                out.append("%s%d O select(%s%d x,%s%d y,%s%d c){return (%s%d)(%s);}" % (t, v, t, v, t, v, m, v, t, v, ", ".join("((%s)c.s%x)<0?y.s%x:x.s%x" % (iv, i, i, i) for i in range(v))))
    out.append("float O native_sqrt(float x){return __builtin_sqrtf(x);} float O native_exp(float x){return __builtin_expf(x);} float O native_recip(float x){return 1.0f/x;} float O native_divide(float x,float y){return x/y;}"
               " float O half_sqrt(float x){return __builtin_sqrtf(x);} float O half_exp(float x){return __builtin_expf(x);}")
    for t in ints:
        s, u = t.lstrip("u"), "u" + t.lstrip("u")
        for n, e in {"max": "x<y?y:x", "min": "y<x?y:x"}.items():
            out.append("%s O %s(%s x,%s y){return %s;}" % (t, n, t, t, e))
            lift(t, n, ["x", "y"])
        out.append("%s O clamp(%s x,%s y,%s z){return x<y?y:(z<x?z:x);}" % (t, t, t, t))
        lift(t, "clamp", ["x", "y", "z"])
        out.append("%s O abs(%s x){return %s;}" % (u, t, "x" if t == u else "x<0?-(%s)x:(%s)x" % (u, u)))
        out.append("%s O abs_diff(%s x,%s y){return x<y?(%s)y-(%s)x:(%s)x-(%s)y;}" % (u, t, t, u, u, u, u))
        for v in vec:
            out.append("%s%d O abs(%s%d x){return (%s%d)(%s);}" % (u, v, t, v, u, v, ", ".join("abs(x.s%x)" % i for i in range(v))))
        out.append("%s O mad_sat(%s x,%s y,%s z){return x*y+z;}" % (t, t, t, t)) if 0 else None
        for m in (s, u):
            out.append("%s O select(%s x,%s y,%s c){return c?y:x;}" % (t, t, t, m))
            for v in vec:
                out.append("%s%d O select(%s%d x,%s%d y,%s%d c){return (%s%d)(%s);}" % (t, v, t, v, t, v, m, v, t, v, ", ".join("((%s)c.s%x)<0?y.s%x:x.s%x" % (s, i, i, i) for i in range(v))))
        for v in vec:
            out.append("int O any(%s%d x){return %s;} int O all(%s%d x){return %s;}" % (t, v, "||".join("x.s%x<0" % i for i in range(v)), t, v, "&&".join("x.s%x<0" % i for i in range(v)))) if t == s else None
    out.append("int O mul24(int x,int y){return x*y;} uint O mul24(uint x,uint y){return x*y;} int O mad24(int x,int y,int z){return x*y+z;} uint O mad24(uint x,uint y,uint z){return x*y+z;}")
    for t in ints + fl:
        for s in ints + fl:
            out.append("%s O convert_%s(%s x){return (%s)x;}" % (t, t, s, t))
            for m in ("rte", "rtz"):
                e = "(%s)x" % t if t in fl or s in ints or m == "rtz" else "(%s)__builtin_rint(x)" % t
                out.append("%s O convert_%s_%s(%s x){return %s;}" % (t, t, m, s, e))
            for v in vec:
                out.append("%s%d O convert_%s%d(%s%d x){return (%s%d)(%s);}" % (t, v, t, v, s, v, t, v, ", ".join("(%s)x.s%x" % (t, i) for i in range(v))))
            if t in ints:
                lim = {"char": ("-128", "127"), "uchar": ("0", "255"), "short": ("-32768", "32767"), "ushort": ("0", "65535"), "int": ("-2147483648.0", "2147483647.0"), "uint": ("0", "4294967295.0")}.get(t)
                if lim:
                    out.append("%s O convert_%s_sat(%s x){double d=(double)x; return d!=d?0:d<%s?%s:d>%s?%s:(%s)x;}" % (t, t, s, lim[0], "(%s)(%s)" % (t, lim[0]), lim[1], "(%s)(%s)" % (t, lim[1]), t))
        for v in vec:
            for sp in ("__global ", "__local ", "__private ", "__constant "):
                q = sp + ("" if "constant" in sp else "const ")
                out.append("%s%d O vload%d(size_t o, %s%s *p){p+=o*%d; return (%s%d)(%s);}" % (t, v, v, q, t, v, t, v, ", ".join("p[%d]" % i for i in range(v))))
                if "constant" not in sp:
                    out.append("void O vstore%d(%s%d d, size_t o, %s%s *p){p+=o*%d; %s}" % (v, t, v, sp, t, v, " ".join("p[%d]=d.s%x;" % (i, i) for i in range(v))))
    return "\n".join(x for x in out if x) + "\n"


FLAGS = ["-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-O1", "-w", "-fPIC", "--target=x86_64-linux-gnu", "-fmax-type-align=4" if 0 else "-gline-tables-only",
         "-fsanitize=kernel-address", "-mllvm", "-asan-memory-access-callback-prefix=__vm_", "-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-stack=0", "-mllvm", "-asan-globals=0",
         "-fsanitize=undefined,float-cast-overflow,bounds", "-fno-sanitize=function"]


def compile_cl(src, opts=()):
    vm.start()
    key = hashlib.sha256((src + repr(opts) + repr(FLAGS)).encode()).hexdigest()[:20]
    so = os.path.join(vm.dir, "k%s.so" % key)
    if not os.path.exists(so):
        pid = "%d_%d" % (os.getpid(), threading.get_ident() & 0xffff)
        bo = os.path.join(vm.dir, "builtins.o")
        if not os.path.exists(bo):
            bc = os.path.join(vm.dir, "b%s.cl" % pid)
            open(bc, "w").write(builtins())
            run(["clang"] + FLAGS + ["-c", bc, "-o", bo + pid])
            os.replace(bo + pid, bo)
        c = os.path.join(vm.dir, "k%s_%s.cl" % (key, pid))
        open(c, "w").write(src)
        run(["clang"] + FLAGS + [o for o in opts if o.startswith("-D") or o == "-cl-single-precision-constant"] + ["-c", c, "-o", c + ".o"])
        run(["clang", "-shared", "-Wl,-Bsymbolic", c + ".o", bo, "-o", so + pid, "-lm"])
        os.replace(so + pid, so)
    return ctypes.CDLL(so, mode=ctypes.RTLD_LOCAL)


SIZES = dict(char=1, uchar=1, short=2, ushort=2, int=4, uint=4, unsigned=4, float=4, long=8, ulong=8, double=8, size_t=8)


def signatures(src):
    """{kernel: [(kind, size)]}; kind p pointer, i integer, f float, ? unknown"""
    s = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
    s = re.sub(r"//[^\n]*", " ", s)
    out = {}
    for m in re.finditer(r"\b(?:__)?kernel\b(?:\s+__attribute__\s*\(\(.*?\)\))?\s+void\s+(\w+)\s*\(([^)]*)\)", s):
        args = []
        for a in m[2].split(","):
            w = re.findall(r"\w+|\*", a)
            if not w:
                continue
            t = [x for x in w[:-1] if x not in ("const", "restrict", "__restrict", "__private", "private", "volatile", "signed")]
            if "*" in w or "local" in t or "__local" in t:
                args.append(("l" if "local" in t or "__local" in t else "p", 8))
            elif "float" in t or "double" in t:
                args.append(("f", 8 if "double" in t else 4))
            elif t and all(x in SIZES for x in t):
                z = [SIZES[x] for x in t if x not in ("unsigned", "int")]
                args.append(("i", z[0] if z else 4))
            else:
                args.append(("?", 0))
        out[m[1]] = args
    return out


# ---------------------------------------------------------------- host API
class Device:
    def __init__(self, platform, d, i):
        self.platform, self.cfg, self.index = platform, d, i
        self.name = "stand-in %d" % i
        self.vendor = "none"
        self.type = d.get("type", device_type.GPU)
        self.host_unified_memory = d.get("unified", True)
        self.max_mem_alloc_size = d.get("alloc", 1 << 28)
        self.global_mem_size = d.get("mem", 1 << 30)
        self.max_work_group_size = d.get("group", 256)
        self.max_compute_units = 4
        self.local_mem_size = 32768
        self.version = "OpenCL 1.2"

    def get_info(self, k):
        return {device_info.MAX_WORK_GROUP_SIZE: self.max_work_group_size, device_info.MAX_MEM_ALLOC_SIZE: self.max_mem_alloc_size, device_info.GLOBAL_MEM_SIZE: self.global_mem_size,
                device_info.HOST_UNIFIED_MEMORY: self.host_unified_memory, device_info.NAME: self.name, device_info.LOCAL_MEM_SIZE: self.local_mem_size, device_info.MAX_COMPUTE_UNITS: 4, device_info.TYPE: self.type}[k]


class Platform:
    def __init__(self, devs, i):
        self.name = "stand-in platform %d" % i
        self.devs = [Device(self, d, j) for j, d in enumerate(devs)]

    def get_devices(self, device_type=device_type.ALL):
        return [d for d in self.devs if device_type & d.type or device_type == 0xFFFFFFFF]


def get_platforms():
    vm.op("platforms")
    if vm._platforms is None:
        vm._platforms = [Platform(p, i) for i, p in enumerate(vm.platforms)]
    if not vm._platforms:
        raise LogicError("clGetPlatformIDs failed: PLATFORM_NOT_FOUND_KHR")
    return list(vm._platforms)


class Context:
    def __init__(self, devices=None, **kw):
        vm.op("context")
        if not devices:
            raise LogicError("clCreateContext failed: INVALID_VALUE")
        self.devices = list(devices)


class Event:
    def __init__(self, q, i):
        self.q, self.i = q, i

    def wait(self):
        self.q.finish()

    @property
    def command_execution_status(self):
        return 3 if self.i >= self.q.done else 0


class CommandQueue:
    """in order; commands run only when something waits for them"""

    def __init__(self, context, device=None, **kw):
        vm.op("queue")
        self.context = context
        self.device = device or context.devices[0]
        self.todo, self.n, self.done = [], 0, 0

    def put(self, f):
        self.todo.append(f)
        self.n += 1
        return Event(self, self.n - 1)

    def finish(self):
        while self.todo:
            f = self.todo.pop(0)
            self.done += 1
            f()

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.finish()


class MemoryObject:
    pass


class Buffer(MemoryObject):
    def __init__(self, context, flags, size=0, hostbuf=None):
        vm.op("buffer")
        flags = int(flags)
        if hostbuf is not None:
            a = np.asarray(hostbuf)
            if not (a.flags.c_contiguous or a.flags.f_contiguous):
                raise ValueError("ndarray is not contiguous")
            size = size or a.nbytes
        size = int(size.__index__())
        dev = context.devices[0]
        if size <= 0:
            vm.refuse(LogicError, "create_buffer failed: INVALID_BUFFER_SIZE (%d)" % size)
        if size > dev.max_mem_alloc_size:
            vm.refuse(MemoryError, "create_buffer failed: MEM_OBJECT_ALLOCATION_FAILURE (%d bytes, the device allows %d)" % (size, dev.max_mem_alloc_size))
        self.size, self.flags, self.context = size, flags, context
        rw = 2 if flags & mem_flags.WRITE_ONLY else 1 if flags & mem_flags.READ_ONLY else 3
        with vm.lock:
            self.id = vm.start().vm_alloc(size, rw)
            if self.id < 0:
                raise MemoryError("the arena of the stand-in device is full")
            vm.lib.vm_fill(self.id, np.uint32(vm.fill).tobytes(), 4, 0, size, 0)
            if hostbuf is not None and flags & (mem_flags.COPY_HOST_PTR | mem_flags.USE_HOST_PTR):
                vm.lib.vm_write(self.id, a.ctypes.data, 0, min(size, a.nbytes))
        self.alive = True

    @property
    def int_ptr(self):
        return self.id

    def get_info(self, k):
        return self.size

    def release(self):
        if not self.alive:
            vm.refuse(LogicError, "MemoryObject.free failed: trying to double-unref mem object")
        self.alive = False


class LocalMemory:
    def __init__(self, size):
        self.size = int(size)


def use(buf, what):
    if not isinstance(buf, Buffer):
        raise TypeError("%s is not a buffer" % what)
    if not buf.alive:
        vm.refuse(LogicError, "%s: the buffer was released: INVALID_MEM_OBJECT" % what)
    return buf


def enqueue_fill_buffer(queue, mem, pattern, offset, size, wait_for=None):
    vm.op("fill")
    use(mem, "enqueue_fill_buffer")
    p = np.asarray(pattern).tobytes()
    offset, size = int(offset), int(size)
    if offset < 0 or size < 0 or offset + size > mem.size or offset % len(p) or size % len(p):
        vm.refuse(LogicError, "clEnqueueFillBuffer failed: INVALID_VALUE (%d bytes at %d of %d)" % (size, offset, mem.size))
    return queue.put(lambda: vm.lib.vm_fill(mem.id, p, len(p), offset, size, 1))


def enqueue_copy(queue, dest, src, is_blocking=True, wait_for=None, byte_count=None, device_offset=0, src_offset=0, dst_offset=0, **kw):
    vm.op("copy")
    if isinstance(dest, Buffer) and isinstance(src, Buffer):
        use(dest, "enqueue_copy"), use(src, "enqueue_copy")
        n = int(byte_count or min(src.size, dest.size))

        def f():
            vm.lib.vm_write(dest.id, vm.lib.vm_ptr(src.id) + int(src_offset), int(dst_offset), n)
        return queue.put(f)
    if isinstance(src, Buffer):
        use(src, "enqueue_copy")
        if src.flags & (mem_flags.HOST_NO_ACCESS | mem_flags.HOST_WRITE_ONLY):
            vm.refuse(LogicError, "clEnqueueReadBuffer failed: INVALID_OPERATION")
        a = dest
        if not isinstance(a, np.ndarray) or not (a.flags.c_contiguous or a.flags.f_contiguous) or not a.flags.writeable:
            raise ValueError("ndarray is not contiguous")
        off = int(device_offset)
        if off + a.nbytes > src.size:
            vm.refuse(LogicError, "clEnqueueReadBuffer failed: INVALID_VALUE (%d bytes at %d of %d)" % (a.nbytes, off, src.size))
        if not is_blocking and a.size:
            # what the host sees before the copy is done is not the result
            a.reshape(-1, order="A").view(np.uint8)[:] = 0xa5

        def f():
            ctypes.memmove(a.ctypes.data, vm.lib.vm_ptr(src.id) + off, a.nbytes)
        e = queue.put(f)
    else:
        use(dest, "enqueue_copy")
        a = np.asarray(src)
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise ValueError("ndarray is not contiguous")
        off = int(device_offset)
        if off + a.nbytes > dest.size:
            vm.refuse(LogicError, "clEnqueueWriteBuffer failed: INVALID_VALUE (%d bytes at %d of %d)" % (a.nbytes, off, dest.size))
        e = queue.put(lambda: vm.lib.vm_write(dest.id, a.ctypes.data, off, a.nbytes))
    if is_blocking:
        queue.finish()
    return e


def enqueue_barrier(queue, wait_for=None):
    return queue.put(lambda: None)


enqueue_marker = enqueue_barrier


def enqueue_nd_range_kernel(queue, kernel, global_size, local_size, *a, **kw):
    return kernel(queue, global_size, local_size, *kernel.args, **kw)


class Kernel:
    def __init__(self, prog, name):
        self.prog, self.function_name = prog, name
        self.sig = prog.sigs[name]
        self.f = ctypes.cast(getattr(prog.lib, name), ctypes.c_void_p).value
        self.args = ()

    def set_args(self, *a):
        self.args = a

    def __call__(self, queue, global_size, local_size, *args, wait_for=None, **kw):
        name = self.function_name
        skip = vm.op("kernel", name) == "skip"     # a device that does nothing, and does not tell
        g = [int(x.__index__()) for x in global_size]
        if not 1 <= len(g) <= 3 or min(g) <= 0:
            vm.refuse(LogicError, "clEnqueueNDRangeKernel failed: INVALID_GLOBAL_WORK_SIZE (%s: %s)" % (name, g))
        l = [int(x) for x in local_size] if local_size is not None else [1] * len(g)
        if len(l) != len(g) or any(a % b for a, b in zip(g, l)):
            vm.refuse(LogicError, "clEnqueueNDRangeKernel failed: INVALID_WORK_GROUP_SIZE (%s: %s of %s)" % (name, l, g))
        if np.prod(l) > queue.device.max_work_group_size:
            vm.refuse(LogicError, "clEnqueueNDRangeKernel failed: INVALID_WORK_GROUP_SIZE (%s)" % name)
        if len(args) != len(self.sig):
            vm.refuse(LogicError, "%s takes %d arguments, not %d" % (name, len(self.sig), len(args)))
        iv, fv, bufs = [], [], []
        for n, (a, (kind, size)) in enumerate(zip(args, self.sig)):
            bad = lambda: vm.refuse(LogicError, "when processing arg#%d of %s: clSetKernelArg failed: INVALID_ARG_SIZE (%r)" % (n + 1, name, type(a)))
            if isinstance(a, Buffer):
                if kind not in "p?":
                    bad()
                use(a, name)
                bufs.append(a)
                iv.append(vm.lib.vm_ptr(a.id))
            elif a is None and kind in "p?":
                iv.append(0)
            elif isinstance(a, LocalMemory):
                vm.refuse(LogicError, "local memory is not supported by the stand-in device")
            elif isinstance(a, np.generic):
                if kind in "pl" or (size and a.dtype.itemsize != size):
                    bad()
                raw = a.tobytes()
                # the device takes the bytes as they are
                if kind == "f" or (kind == "?" and a.dtype.kind == "f"):
                    fv.append(np.frombuffer(raw.ljust(8, b"\0"), np.float64)[0])
                else:
                    iv.append(int.from_bytes(raw, "little", signed=a.dtype.kind == "i"))
            else:
                raise TypeError("when processing arg#%d of %s: invalid type %r" % (n + 1, name, type(a)))
        iv = np.array([int(x) - (1 << 64) if int(x) >= 1 << 63 else int(x) for x in iv] + [0] * (20 - len(iv)), np.int64)
        fv = np.array(fv + [0.] * (8 - len(fv)), np.float64)
        g3, l3 = np.array(g + [1] * (3 - len(g)), np.uint64), np.array(l + [1] * (3 - len(l)), np.uint64)

        def run_(prog=self.prog, bufs=bufs):
            if skip:
                return
            with vm.lock:
                vm.launches[name] = vm.launches.get(name, 0) + 1
                vm.items += int(np.prod(g3))
                order = vm.order if vm.order < 2 else vm.order + 7919 * sum(vm.launches.values())
                r = vm.lib.vm_run(self.f, name.encode(), iv.ctypes.data, fv.ctypes.data, g3.ctypes.data, l3.ctypes.data, order)
            if r:
                raise RuntimeError("%s: the launch was given up: %s" % (name, vm.reports()))
        return queue.put(run_)


class Program:
    def __init__(self, ctx, src):
        self.src = src.decode() if isinstance(src, bytes) else src
        self.context = ctx
        self.lib = None

    def build(self, options=(), devices=None, **kw):
        vm.op("build")
        opts = options.split() if isinstance(options, str) else list(options)
        k = (self.src, tuple(opts))
        with vm.lock:
            if k not in vm.progs:
                vm.progs[k] = (compile_cl(self.src, opts), signatures(self.src))
        self.lib, self.sigs = vm.progs[k]
        return self

    def all_kernels(self):
        return [Kernel(self, n) for n in self.sigs]

    def __getattr__(self, name):
        if name.startswith("_") or name not in self.__dict__.get("sigs", {}):
            raise AttributeError("'%s' was not found as a program info attribute or as a kernel name" % name)
        return Kernel(self, name)


def create_some_context(*a, **k):
    return Context(get_platforms()[0].get_devices())
