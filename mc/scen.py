"""Scenarios shared by the properties about the environment (C10, C11): one or more command
lines for every tool, each with small inputs.  A scenario is

    (name, arguments, {file: contents}, [output files], main)

`main` names the input whose delivery is varied; '@' among the arguments stands for it.
"""
H = b" CDX\ta\tb\n"
SMALL = b"1\tx\n2\ty\n"           # 8 bytes, sorted, no header
TINY = b" CDX\ta\n1\n2\n"         # 12 bytes, header
TAB = H + b"1\tx\n2\ty y\n2\tz\n10\t\n"
NUMS = H + b"".join(b"%d\tv%d\n" % (i, i * 7 % 5) for i in range(10, 40))

# name, args, other files, outputs
TOOLS = [
    ("sort", ["sort", "-k", "1", "@"], {}, []),
    ("sort-u", ["sort", "-u", "-k", "1,num", "@"], {}, []),
    ("sort-alt", ["sort", "-a", "@"], {}, []),
    ("sort-two", ["sort", "@", "g"], {"g": "@"}, []),
    ("merge", ["sort", "-m", "-k", "1,num", "@", "g"], {"g": "@"}, []),
    ("merge-alt", ["sort", "-m", "-A", "-k", "1,num", "@", "g"], {"g": "@"}, []),
    ("check", ["sort", "-c", "-k", "1,num", "@"], {}, []),
    ("uniq", ["uniq", "-k", "1", "-c", "n,begin", "@"], {}, []),
    ("uniq-agg", ["uniq", "-k", "1", "-a", "1,count", "@"], {}, []),
    ("join", ["join", "-k", "1", "-a", "1,left", "-a", "2,right", "@", "g"], {"g": "@"}, ["left", "right"]),
    ("join2", ["join", "-k", "1", "-a", "1,left", "-f", "both", "g", "@"], {"g": "@"}, ["left", "both"]),
    ("cat", ["cat", "@"], {}, []),
    ("cat-pad", ["cat", "-p", "yes", "@", "g"], {"g": "@"}, []),
    ("cat-n", ["cat", "-b", "@", "g"], {"g": "@"}, []),
    ("cgrep", ["cgrep", "-p", "1,glob,*", "@"], {}, []),
    ("cgrep-v", ["cgrep", "-v", "-p", "1,exact,2", "@"], {}, []),
    ("cut", ["cut", "-f", "1", "@"], {}, []),
    ("cut-e", ["cut", "-e", "x:[1]+1", "-f", "1", "@"], {}, []),
    ("paste", ["paste", "-D", "numeric", "@", "g"], {"g": "@"}, []),
    ("transpose", ["transpose", "@"], {}, []),
    ("sample-s", ["sample", "-s", "3", "@"], {}, []),
    ("sample-f", ["sample", "-f", "2,1,5", "@"], {}, []),
    ("sample-r", ["sample", "-r", "1-2,4", "@"], {}, []),
    ("verify", ["verify", "-s", "-k", "1,num", "@"], {}, []),
    ("verify-p", ["verify", "-p", "1,range,<2", "@"], {}, []),
    ("wc", ["wc", "-l", "-b", "-c", "-w", "@"], {}, []),
    ("wc-C", ["wc", "-C", "-b", "@"], {}, []),
    ("tabs", ["tabs", "@"], {}, []),
]
FORMATTED = [
    ("cut-q", ["cut", "--text-in", "mtq", "-f", "1", "@"], {}, []),
    ("cgrep-q", ["cgrep", "--text-in", "mtq", "-p", "1,glob,*", "@"], {}, []),
    ("cut-b", ["cut", "--text-in", "mtb", "-f", "1", "@"], {}, []),
]
CALC = ("calc", ["calc"], {}, [])
TOOLTEST = ("tooltest", ["tooltest", "-b", "/bin", "@"], {}, [])
TEST = b"#command echo hi\n#stdout\nhi\n"


def concrete(sc, content, name="f"):
    """arguments and files of a scenario whose main input is `content`, delivered as `name`"""
    _, args, files, outs = sc
    fn = {k: (content if v == "@" else v) for k, v in files.items()}
    if name == "f":
        fn["f"] = content
    return [name if a == "@" else a for a in args], fn


def observe(srv, sc, content, pl=None, name="f", stdin=b"", wipe=True):
    """everything a user can see of one run"""
    args, fn = concrete(sc, content, name)
    if wipe:
        for o in sc[3]:
            srv.write_file(o, b"old contents that must go away\n")
    r = srv.run(args, stdin=stdin, files=fn, pl=pl)
    return r, (r.rc, r.out, r.err, tuple(srv.read_file(o) for o in sc[3]))
