"""Readers of the trajectory files, written from their format (not from the writers)."""
import re


def lattice(text):
    """-> dict(sites, frames=[(step, time, types)]); raises ValueError on anything malformed."""
    lines = text.split("\n")
    if not lines[0].startswith("# KMCLib Trajectory"):
        raise ValueError("no header line: %r" % lines[0])
    env = {}
    try:
        exec(compile(text, "trajectory", "exec"), {}, env)
    except Exception as e:
        raise ValueError("the file cannot be read as it is meant to be: %s" % e)
    for k in ("version", "creation_time", "sites", "times", "steps", "types"):
        if k not in env:
            raise ValueError("no %s" % k)
    if text.count("sites=") != 1 or text.count("times=[]") != 1:
        raise ValueError("more than one header")
    order = re.findall(r"^(times|steps|types)\.append\(", text, re.M)
    if order != ["times", "steps", "types"] * (len(order) // 3):
        raise ValueError("incomplete or interleaved sections: %r" % (order[:12],))
    if not len(env["times"]) == len(env["steps"]) == len(env["types"]) == len(order) // 3:
        raise ValueError("sections lost")
    if not text.endswith("\n"):
        raise ValueError("the last line is not complete")
    return dict(sites=env["sites"], frames=list(zip(env["steps"], env["times"], env["types"])))


def xyz(text):
    """-> dict(cell, reps, periodic, frames=[(step, time, [(type, x, y, z)])])"""
    if not text.endswith("\n"):
        raise ValueError("the last line is not complete")
    lines = text.split("\n")[:-1]
    it = iter(lines)

    def take(rx):
        try:
            l = next(it)
        except StopIteration:
            raise ValueError("the file ends early")
        m = re.match(rx + "$", l)
        if not m:
            raise ValueError("unexpected line %r" % l)
        return m
    num = r"\s*([-+]?[0-9.]+e[-+]?[0-9]+)"
    take(r"KMCLib XYZ FORMAT VERSION .*")
    take("")
    take("CELL VECTORS")
    cell = [[float(x) for x in take("%s:%s%s%s" % (c, num, num, num)).groups()] for c in "abc"]
    take("")
    reps = [int(x) for x in take(r"REPETITIONS (\d+) (\d+) (\d+)").groups()]
    take("")
    per = [x == "True" for x in take(r"PERIODICITY (True|False) (True|False) (True|False)").groups()]
    take("")
    frames = []
    while True:
        try:
            l = next(it)
        except StopIteration:
            break
        m = re.match(r"STEP (\d+)$", l)
        if not m:
            raise ValueError("unexpected line %r" % l)
        step = int(m.group(1))
        n = int(take(r"\s*(\d+)").group(1))
        t = float(take("    TIME" + num).group(1))
        atoms = []
        for j in range(n):
            m = take(r"\s*(\S+)\s*%s%s%s\s*(\d+)" % (num, num, num))
            if int(m.group(5)) != j:
                raise ValueError("atoms are not numbered in order")
            atoms.append((m.group(1), float(m.group(2)), float(m.group(3)), float(m.group(4))))
        frames.append((step, t, atoms))
    return dict(cell=cell, reps=reps, periodic=per, frames=frames)
