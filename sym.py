import re, subprocess, sys
def symbolize(exe, text):
    addrs = sorted(set(re.findall(r"\[0x([0-9a-f]+)\]", text)))
    addrs = [a for a in addrs if int(a, 16) < 0x10000000]
    if not addrs: return text
    try:
        out = subprocess.run(["addr2line", "-C", "-f", "-e", exe] + ["0x" + a for a in addrs], capture_output=True, text=True, timeout=60).stdout.splitlines()
    except Exception:
        return text
    m = {}
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(out):
            f = out[2 * i]
            f = re.sub(r"<[^<>]{60,}>", "<..>", f)
            if len(f) > 160: f = f[:160] + "..."
            loc = out[2 * i + 1].split(" ")[0].replace("/repo/internal/ceres/", "")
            m[a] = f + " " + loc
    return re.sub(r"\[0x([0-9a-f]+)\]", lambda k: "[0x%s] %s" % (k.group(1), m.get(k.group(1), "")), text)
if __name__ == "__main__":
    sys.stdout.write(symbolize(sys.argv[1], sys.stdin.read()))
