# The Python package under the simulated kernel: this interpreter loads everything, then becomes
# the fork server; each child goes on as a freshly started svdtools.
import os, sys
import abc, argparse, ast, base64, bisect, calendar, codecs, collections, collections.abc, configparser, contextlib, copy
import csv, ctypes, dataclasses, datetime, decimal, difflib, enum, errno, fcntl, filecmp, fnmatch, fractions, functools
import gc, getopt, gettext, glob, gzip, hashlib, heapq, html, importlib, importlib.metadata, importlib.resources, inspect
import io, itertools, json, keyword, linecache, locale, logging, math, mimetypes, numbers, operator, pathlib, pickle
import pprint, queue, random, re, shlex, shutil, signal, stat, string, struct, subprocess, tempfile, textwrap, threading
import time, token, tokenize, traceback, types, typing, unicodedata, urllib.parse, urllib.request, uuid, warnings, weakref
import xml.dom.minidom, xml.etree.ElementTree, xml.sax, zipfile, zlib, secrets, statistics, platform, atexit, selectors
import concurrent.futures, multiprocessing, asyncio
import encodings.ascii, encodings.idna, encodings.latin_1, encodings.utf_8, encodings.utf_8_sig, encodings.utf_16, encodings.cp1252
import yaml, lxml.etree, lxml.objectify, click, braceexpand

for n in ("click.testing", "click.shell_completion", "click._termui_impl", "click._textwrap", "lxml.builder", "yaml.cyaml"):
    try:
        importlib.import_module(n)
    except ImportError:
        pass
# parts of the libraries that are prepared at first use
t = lxml.etree.parse(io.BytesIO(b"<a><!-- c --><b x='1'>t</b></a>"))
t.write(io.BytesIO())
t.write(io.BytesIO(), encoding="utf-8", xml_declaration=True, pretty_print=True)
t.find("b"), list(t.iter("b")), t.xpath("//b"), copy.deepcopy(t)
for f in (lambda: lxml.etree.parse("/nonexistent/x"), lambda: t.write("/nonexistent/x"), lambda: lxml.etree.fromstring("<a>")):
    try:
        f()
    except Exception as e:
        traceback.format_exception(e)
yaml.safe_load("a: [1, 0x10, 'b', 1.5, true]\n")
list(braceexpand.braceexpand("{A,B}{1..3}"))

# the sources as they are now
sys.pycache_prefix = "/nonexistent/pycache"
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ["SVDSIM_REPO"])
import svdtools, svdtools.cli
for f in sorted(glob.glob(os.environ["SVDSIM_REPO"] + "/svdtools/**/*.py", recursive=True)):
    n = os.path.relpath(f, os.environ["SVDSIM_REPO"])[:-3].replace("/", ".").removesuffix(".__init__")
    if not re.search(r"\.(test|tests|__main__)(\.|$)", n):
        importlib.import_module(n)

# modules they import later on: the simulated file system has none
for f in glob.glob(os.environ["SVDSIM_REPO"] + "/svdtools/*.py"):
    with open(f, encoding="utf-8") as h:
        for n in ast.walk(ast.parse(h.read())):
            for m in [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and not n.level else []:
                try:
                    importlib.import_module(m)
                except ImportError:
                    pass

c = click.Context(svdtools.cli.svdtools_cli)
for k in svdtools.cli.svdtools_cli.commands.values():
    k.get_help(click.Context(k, parent=c))
del sys.path[0]

argv = (ctypes.c_char_p * 121)(*[b""] * 121)
sim = ctypes.PyDLL(None)
sim.svdsim_serve.restype = ctypes.POINTER(ctypes.c_char_p)
gc.collect()
gc.freeze()
env = sim.svdsim_serve(121, argv)
# from here on: a child
vars = []
while env[len(vars)] is not None:
    vars.append(env[len(vars)])
os.environ.clear()
for v in vars:
    k, _, v = v.partition(b"=")
    os.environb[k] = v
sys.argv = [os.fsdecode(a) for a in argv if a is not None]


def calls(plan, results):
    """Calls of the package's functions, one after another in this interpreter (C20)."""
    with open(plan, encoding="utf-8") as f:
        todo = [json.loads(l) for l in f if l.strip()]
    done = []
    for k, c in enumerate(todo):
        mark(k)
        if c[0] in ("put", "set"):
            was = os.stat(c[1]) if c[0] == "set" else None
            with open(c[1], "w", encoding="utf-8", newline="") as f:
                f.write(c[2])
            if was:
                os.utime(c[1], ns=(was.st_atime_ns, was.st_mtime_ns))
        elif c[0] == "del":
            os.unlink(c[1])
        elif c[0] == "cd":
            os.chdir(c[1])
        if c[0] in ("put", "set", "del", "cd"):
            done.append(None)
            continue
        said = io.StringIO()
        how, value = "ok", None
        try:
            with contextlib.redirect_stdout(said):
                if c[0] == "patch":
                    svdtools.patch.main(c[2])
                elif c[0] == "makedeps":
                    svdtools.makedeps.main(c[2], c[3])
                elif c[0] == "mmap":
                    value = svdtools.mmap.main(c[2])
                elif c[0] == "interrupts":
                    value = svdtools.interrupts.main(c[2], c[3] == "1")
                else:
                    svdtools.cli.svdtools_cli.main(c[2:], prog_name="svd", standalone_mode=False)
        except BaseException as e:
            how = type(e).__name__ + ": " + re.sub("0x[0-9a-f]{6,}", "0x", str(e))
        made = None
        if c[1]:
            try:
                with open(c[1], encoding="latin-1", newline="") as f:
                    made = f.read()
            except OSError:
                pass
        done.append([how, f"{value}{said.getvalue()}", made, os.getcwd()])
    mark("end")
    with open(results, "w", encoding="utf-8") as f:
        json.dump(done, f)


def mark(k):
    try:
        os.close(os.open(f"/mark/{k}", os.O_RDONLY))
    except OSError:
        pass


if sys.argv[0] == "svdlib":
    calls(*sys.argv[1:3])
    sys.exit(0)
sys.exit(svdtools.cli.svdtools_cli())
