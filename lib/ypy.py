#!/opt/hrm/venv/bin/python
"""Monitors the Python viewer: what it draws is the planner's scene, robot and result.

Same command line and output lines as the C++ harnesses (harness/mon.h).
"""
import json, math, os, random, sys, time, warnings

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", os.path.join(os.getcwd(), "mpl"))
warnings.filterwarnings("ignore")
REPO = os.environ.get("HRM_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "demo", "python"))

OUT = None
CASE = -1
COUNT, SIG, SAMPLES = {}, set(), []
NV = 0


def wr(l):
    OUT.write(l + "\n")
    OUT.flush()


def viol(key, detail):
    global NV
    NV += 1
    if NV <= 20:
        wr("V %d %s %s" % (CASE, key, " ".join(str(detail).split())[:1400]))


def check(ok, key, detail):
    if not ok:
        viol(key, detail())
    return ok


def cnt(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n


# ---- own mathematics, lists only ---------------------------------------------------------------
def mat(q):
    n = math.sqrt(sum(c * c for c in q))
    w, x, y, z = [c / n for c in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def mv(A, v):
    return [sum(A[i][k] * v[k] for k in range(3)) for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def axis_rot(a, t):
    x, y, z = a
    c, s = math.cos(t), math.sin(t)
    return [[c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s],
            [y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s],
            [z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]]


def mul(g, h):          # rigid motions as (rotation, translation)
    return mm(g[0], h[0]), [a + b for a, b in zip(mv(g[0], h[1]), g[1])]


def rq(r):
    q = [r.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(c * c for c in q))
    k = r.uniform(0.4, 3) if r.random() < 0.3 else 1.0
    return [c / n * k for c in q]


def rv(r, s):
    return [r.uniform(-s, s) for _ in range(3)]


def shape(r, base=False):
    return {"a": [math.exp(r.uniform(-1.2, 3)) for _ in range(3)],
            "e": [1.0, 1.0] if base else [r.uniform(0.2, 1.8) for _ in range(2)],
            "t": rv(r, 30), "q": rq(r)}


def pose_of(s):
    return mat(s["q"]), s["t"]


def on_surface(P, s, g, num, who):
    """P: num x num points drawn; s: shape; g: where it should be"""
    a, e = s["a"], s["e"]
    Rt = tr(g[0])
    lo, hi = [1e300] * 3, [-1e300] * 3
    for i in range(num):
        for j in range(num):
            d = [P[k][i][j] - g[1][k] for k in range(3)]
            l = mv(Rt, d)
            u = [abs(l[k]) / a[k] for k in range(3)]
            f = ((u[0] ** (2 / e[1]) + u[1] ** (2 / e[1])) ** (e[1] / e[0]) + u[2] ** (2 / e[0])) ** (e[0] / 2)
            if not check(abs(f - 1) < 1e-6, "off-surface", lambda: "%s: point %d,%d at radius %.9g of the surface; %s" % (who, i, j, f, s)):
                return False
            for k in range(3):
                lo[k], hi[k] = min(lo[k], l[k]), max(hi[k], l[k])
    h = math.pi / (num - 1)
    reach = [a[0] * math.cos(h / 2) ** e[0] * math.cos(h) ** e[1], a[1] * math.cos(h / 2) ** e[0] * math.cos(h) ** e[1], a[2] * math.cos(h / 2) ** e[0]]
    for k in range(3):
        if not check(hi[k] >= reach[k] * (1 - 1e-5) and -lo[k] >= reach[k] * (1 - 1e-5), "surface-open",
                     lambda: "%s: along axis %d it spans %.6g to %.6g, at least %.6g expected; %s" % (who, k, lo[k], hi[k], reach[k], s)):
            return False
    cnt("points", num * num)
    cnt("surfaces")
    return True


def same_pose(pose, g, who, scale):
    A = pose.A
    d = max(abs(A[i][j] - g[0][i][j]) for i in range(3) for j in range(3))
    t = max(abs(A[i][3] - g[1][i]) for i in range(3))
    return check(d < 1e-9 and t < 1e-9 * (1 + scale), "placed", lambda: "%s is turned by %.3g and shifted by %.3g from where the planner puts it" % (who, d, t))


class Ax:   # records what is drawn
    def __init__(self):
        self.surf = []

    def plot_surface(self, x, y, z, color=None):
        self.surf.append((x, y, z))
        return len(self.surf)

    def set_aspect(self, *_):
        pass


def lib():
    import numpy as np
    import SuperQuadrics, MultiBodyTree, robot_generator, result_loader
    from spatialmath import SE3
    return np, SuperQuadrics, MultiBodyTree, robot_generator, result_loader, SE3


def se3(L, g):
    np, SE3 = L[0], L[5]
    A = np.eye(4)
    A[:3, :3] = g[0]
    A[:3, 3] = g[1]
    return SE3(A, check=False)


def sq(L, s, num):
    return L[1].SuperQuadrics(list(s["a"]), list(s["e"]), list(s["t"]), list(s["q"]), num)


def case_surface(r, L):
    s, num = shape(r), r.randint(6, 24)
    o = sq(L, s, num)
    P = o.get_points()
    if not check(P.shape == (3, num * num), "point-count", lambda: "%s points for num %d" % (P.shape, num)):
        return
    ax = Ax()
    o.plot(ax, 'y')
    ok = on_surface(ax.surf[0], s, pose_of(s), num, "shape")
    flat = sorted(zip(*[[float(v) for v in P[k]] for k in range(3)]))
    drawn = sorted(zip(*[[float(v) for v in ax.surf[0][k].reshape(-1)] for k in range(3)]))
    check(flat == drawn, "drawn-points", lambda: "the drawn surface is not made of the sampled points; %s" % s)
    if ok:
        SIG.add(str(s))


def bodies(r, n):
    b = [shape(r, True) for _ in range(n + 1)]
    b[0]["t"], b[0]["q"] = [0, 0, 0], [1, 0, 0, 0]
    for x in b[1:]:
        x["t"] = rv(r, 10)
    return b


def rows(b):
    return [x["a"] + x["e"] + x["t"] + x["q"] for x in b]


def case_rigid(r, L):
    np = L[0]
    n = r.randint(0, 5)
    b = bodies(r, n)
    if r.random() < 0.5:
        rob, u = L[3].generate_robot(np.array(rows(b), dtype=float))
        num = 20
        if not check(u is None, "urdf", lambda: "a rigid robot got a URDF model"):
            return
    else:
        num = r.randint(6, 12)
        rob = L[2].MultiBodyTree(sq(L, b[0], num), n)
        order = list(range(n))
        r.shuffle(order)
        for i in order:
            rob.add_body(sq(L, b[i + 1], num), i)
    for k in range(r.randint(1, 4)):
        q, t = rq(r), rv(r, 60)
        g = (mat(q), t)
        if r.random() < 0.5:
            rob.transform(se3(L, g))
            ax = Ax()
            rob.plot(ax)
        else:
            ax = Ax()
            L[3].plot_robot_pose(rob, np.array(t + q), None, ax)
        if not check(len(ax.surf) == n + 1, "bodies-drawn", lambda: "%d surfaces for %d bodies" % (len(ax.surf), n + 1)):
            return
        for i in range(n + 1):
            w = mul(g, pose_of(b[i]))
            who = "body %d, move %d" % (i, k)
            if not same_pose((rob.link[i - 1] if i else rob.base).pose, w, who, 100):
                return
            if not on_surface(ax.surf[i], b[i], w, num, who):
                return
        cnt("moves")
    SIG.add(str(b))


def random_urdf(r, n, path):
    joints, stack = [], [0]
    for i in range(1, n + 1):
        up = r.randrange(len(stack)) if r.random() < 0.4 else len(stack) - 1
        stack = stack[:up + 1]
        a = [0, 0, 0]
        a[r.randrange(3)] = 1
        joints.append({"p": stack[-1], "xyz": rv(r, 9), "rpy": rv(r, 1.4) if r.random() < 0.5 else [0, 0, 0], "a": a})
        stack.append(i)
    nm = lambda i: "body%d" % i if i else "base"
    s = '<?xml version="1.0" ?>\n<robot name="r">\n' + "".join('  <link name="%s"/>\n' % nm(i) for i in range(n + 1))
    for i, j in enumerate(joints):
        s += ('  <joint name="j%d" type="revolute"><parent link="%s"/><child link="%s"/><origin rpy="%r %r %r" xyz="%r %r %r"/><axis xyz="%d %d %d"/>'
              '<limit effort="1" lower="-1.57" upper="1.57" velocity="1"/></joint>\n') % ((i + 1, nm(j["p"]), nm(i + 1)) + tuple(j["rpy"]) + tuple(j["xyz"]) + tuple(j["a"]))
    with open(path, "w") as f:
        f.write(s + "</robot>\n")
    return joints


def shipped_urdf(path):   # revolute joints in file order, bodies numbered
    import xml.etree.ElementTree as ET
    js = {}
    for j in ET.parse(path).getroot().findall("joint"):
        idx = lambda n: 0 if n == "base" else int(n[4:])
        o = j.find("origin")
        f = lambda e, k: [float(v) for v in e.get(k).split()]
        js[idx(j.find("child").get("link"))] = {"p": idx(j.find("parent").get("link")), "xyz": f(o, "xyz"), "rpy": f(o, "rpy"), "a": f(j.find("axis"), "xyz")}
    return [js[i] for i in range(1, len(js) + 1)]


def case_joints(r, L):
    np = L[0]
    ship = r.random() < 0.4
    if ship:
        name = r.choice(["snake", "tree"])
        path = os.path.join(REPO, "resources", "3D", "urdf", name + ".urdf")
        if not os.path.exists(path):
            cnt("resource_missing")
            return
        joints = shipped_urdf(path)
        n = len(joints)
        cnt("shipped_robots")
    else:
        n = r.randint(1, 7)
        path = os.path.abspath("r.urdf")
        joints = random_urdf(r, n, path)
    b = bodies(r, n)
    rob, u = L[3].generate_robot(np.array(rows(b), dtype=float), path)
    num = 20
    for k in range(r.randint(1, 3)):
        q, t = rq(r), rv(r, 60)
        v = [r.uniform(-1.57, 1.57) for _ in range(n)]
        ax = Ax()
        L[3].plot_robot_pose(rob, np.array(t + q + v), u, ax)
        g = [(mat(q), t)]
        for i, j in enumerate(joints):
            rx, ry, rz = j["rpy"]
            O = mm(mm(axis_rot([0, 0, 1], rz), axis_rot([0, 1, 0], ry)), axis_rot([1, 0, 0], rx))
            g.append(mul(g[j["p"]], (mm(O, axis_rot(j["a"], v[i])), j["xyz"])))
        if not check(len(ax.surf) == n + 1, "bodies-drawn", lambda: "%d surfaces for %d bodies" % (len(ax.surf), n + 1)):
            return
        for i in range(n + 1):
            w = mul(g[i], pose_of(b[i]))
            who = "%s body %d, joints %s" % (path if ship else "chain %s" % joints, i, v)
            if not same_pose((rob.link[i - 1] if i else rob.base).pose, w, who, 200):
                return
            if not on_surface(ax.surf[i], b[i], w, num, "body %d" % i):
                return
        cnt("articulated_moves")
    SIG.add(str(b))


def txt(r, v):
    return "%.6g" % v if r.random() < 0.7 else "%.17g" % v


def table(r, n, m, f):
    return [[f() for _ in range(m)] for _ in range(n)]


def put(r, path, t, sep=",", trail=False):
    s, truth = "", []
    for row in t:
        c = [txt(r, v) if isinstance(v, float) else str(v) for v in row]
        truth.append([float(x) for x in c])
        s += sep.join(c) + (sep if trail else "") + "\n"
    with open(path, "w") as f:
        f.write(s)
    return truth


def equal(got, want, key, who):
    if want is None:
        return check(got is None, key, lambda: "%s: something was loaded where no file is" % who)
    if not check(got is not None and len(got) == len(want), key, lambda: "%s: %s rows loaded, %d in the file" % (who, None if got is None else len(got), len(want))):
        return False
    for i, (g, w) in enumerate(zip(got, want)):
        # a separator at the end of a row may add one empty column
        ok = len(w) <= len(g) <= len(w) + 1 and all(abs(float(x) - y) <= 1e-12 * max(1.0, abs(y)) for x, y in zip(g, w)) and all(math.isnan(float(x)) for x in g[len(w):])
        if not check(ok, key, lambda: "%s row %d: %s, file %s" % (who, i, list(g), w)):
            return False
    cnt("rows_loaded", len(want))
    return True


def case_files(r, L):
    d = os.path.join(os.getcwd(), "y") + "/"
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(d + f)
    dim = r.choice(["2D", "3D"])
    m = 6 if dim == "2D" else 12
    dof = 3 if dim == "2D" else r.choice([7, 10, 16])
    u = lambda s: (lambda: r.uniform(-s, s))
    A = put(r, d + "arena_config_%s.csv" % dim, table(r, 1, m, u(60)))
    O = put(r, d + "obstacle_config_%s.csv" % dim, table(r, r.randint(1, 12), m, u(60)))
    R = put(r, d + "robot_config_%s.csv" % dim, table(r, r.randint(1, 9), m, u(9)))
    E = put(r, d + "end_points_%s.csv" % dim, table(r, 2, dof, u(60)))
    rc, ac, oc, ec = L[4].load_planning_scene(dim, d)
    ok = equal(rc, R, "robot-config", "robot") & equal(ac, A, "arena-config", "arena") & equal(oc, O, "obstacle-config", "obstacles") & equal(ec, E, "end-points", "end points")
    suf = r.choice(["hrm_3D", "prob_hrm_3D", "hrm_2D"])
    n = r.randint(2, 60)
    V = put(r, d + "vertex_%s.csv" % suf, table(r, n, dof, u(60)), trail=True)
    G = put(r, d + "edge_%s.csv" % suf, table(r, r.randint(1, 90), 2, lambda: r.randrange(n)))
    S = put(r, d + "solution_path_%s.csv" % suf, table(r, r.randint(2, 9), dof, u(60)), trail=True)
    P = S
    if r.random() < 0.7:
        P = put(r, d + "interpolated_path_%s.csv" % suf, table(r, r.randint(2, 50), dof, u(60)), trail=True)
    B = M = F = None
    if r.random() < 0.7:
        k = r.randint(4, 40)
        B = put(r, d + "origin_bound_%s.csv" % suf, table(r, 3 * r.randint(1, 5), k, u(60)), sep=" ")
        M = put(r, d + "mink_bound_%s.csv" % suf, table(r, 3 * r.randint(1, 5), k, u(60)), sep=" ")
        F = put(r, d + "segment_%s.csv" % suf, table(r, r.randint(1, 40), 5, u(60)))
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        x = L[4].load_results(suf, d)
    finally:
        sys.stdout.close()
        sys.stdout = so
    for got, want, key in zip(x, [B, M, F, V, G, P], ["origin-bound", "mink-bound", "segments", "vertices", "edges", "path"]):
        ok &= equal(got, want, key, key)
    if ok:
        SIG.add("%s %s %d %d" % (dim, suf, n, CASE))


def main():
    global OUT, CASE, NV
    a = sys.argv[1:]
    o = {"--seed": "1", "--tier": "quick", "--shard": "0", "--nshards": "1", "--out": "/dev/stdout"}
    for k, v in zip(a[1::2], a[2::2]):
        o[k] = v
    OUT = open(o["--out"], "a")
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    L = lib()
    if "--only" in o:
        cases = [int(o["--only"])]
    else:
        n = int(o.get("--cases", 600 if o["--tier"] == "quick" else 12000))
        cases = range(int(o["--shard"]), n, int(o["--nshards"]))
    for CASE in cases:
        r = random.Random("%s:%s:%d" % (o["--seed"], a[0], CASE))
        f = [case_surface, case_rigid, case_joints, case_files][r.randrange(4)]
        cnt("cases")
        try:
            f(r, L)
        except Exception as e:
            import traceback
            viol("exception", "%s: %s" % (type(e).__name__, traceback.format_exc()[-700:]))
        if len(SAMPLES) < 3:
            SAMPLES.append("case %d %s" % (CASE, f.__name__))
    h = lambda s: int.from_bytes(__import__("hashlib").sha256(s.encode()).digest()[:6], "big")
    wr("C " + json.dumps({"count": COUNT, "max": {}, "sig": [h(s) for s in SIG], "samples": SAMPLES}))
    wr("D")
    OUT.close()
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
