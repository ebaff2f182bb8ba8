"""Process that opens ELF files in forked children and interrupts them at a chosen point.

Started with native/ioshim.so preloaded; one JSON request per line on stdin, one JSON answer per
line on stdout. Interruption points: changes of the side-car files (io), lines executed in
objutils.elf (line), SQL statements and commits (sql).
"""
import ctypes
import hashlib
import json
import os
import signal
import sys


def digest(ep):
    """Everything an opened file reports, as one hash."""
    out = [ep.b64, ep.endianess, ep.header_bytes, ep.comment, ep.machine_data]
    for f in ("ei_class", "ei_data", "ei_version", "ei_osabi", "ei_abiversion", "e_type", "e_machine", "e_version", "e_entry", "e_phoff", "e_shoff", "e_flags", "e_ehsize", "e_phentsize",
              "e_phnum", "e_shentsize", "e_shnum", "e_shstrndx"):
        out.append((f, getattr(ep, f)))
    for p in ep.segments:
        out.append((p.p_type, p.p_offset, p.p_vaddr, p.p_paddr, p.p_filesz, p.p_memsz, p.p_flags, p.p_align))
    for s in sorted(ep.sections.fetch(), key=lambda s: s.index):
        img = s.section_image
        out.append((s.index, s.section_name, s.sh_name, s.sh_type, s.sh_flags, s.sh_addr, s.sh_offset, s.sh_size, s.sh_link, s.sh_info, s.sh_addralign, s.sh_entsize, None if img is None else bytes(img)))
    syms = [(s.symbol_name, s.st_name, s.st_value, s.st_size, s.st_bind, s.st_type, s.st_other, s.st_shndx, s.section_name, s.access) for g in ep.symbols.fetch().values() for s in g]
    out += sorted(syms, key=repr)
    out += [(n.section_name, n.type, n.name, n.desc) for n in ep.notes]
    return hashlib.sha1(repr(out).encode()).hexdigest()


def main():
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    shim = ctypes.CDLL(None)
    try:
        shim.shim_arm.argtypes = [ctypes.c_long, ctypes.c_int]
        shim.shim_count.restype = shim.shim_hits.restype = ctypes.c_long
        have_shim = True
    except AttributeError:
        have_shim = False
    answer = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.stdout = open(os.devnull, "w")
    import objutils.elf as elf
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    elf_dir = os.path.dirname(os.path.abspath(elf.__file__))
    IO_MODES = {"kill": 0, "torn": 1, "fail": 2, "full": 3, "after": 4}
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                res = dict(opened=False)
                kind, n, how = req["kind"], req["n"], req["how"]
                count = dict(line=0, sql=0)

                def interrupt():
                    if how == "kill":
                        os.kill(os.getpid(), signal.SIGKILL)
                    res["hit"] = True
                    raise {"error": OSError(28, "no space left (injected)"), "memory": MemoryError("injected"), "interrupt": KeyboardInterrupt("injected")}[how]

                def on_sql(*args):
                    count["sql"] += 1
                    if kind == "sql" and count["sql"] == n:
                        interrupt()

                if kind in ("sql", "count"):
                    event.listen(Engine, "before_cursor_execute", on_sql)
                    event.listen(Engine, "after_cursor_execute", on_sql)
                    event.listen(Engine, "commit", on_sql)
                    event.listen(Engine, "rollback", lambda *a: None)

                def local(frame, ev, arg):
                    if ev == "line":
                        count["line"] += 1
                        if kind == "line" and count["line"] == n:
                            interrupt()
                    return local

                def tracer(frame, ev, arg):
                    return local if frame.f_code.co_filename.startswith(elf_dir) else None

                if have_shim:
                    shim.shim_arm(n if kind == "io" else -1, IO_MODES.get(how, 0) if kind == "io" else 0)
                if kind in ("line", "count"):
                    sys.settrace(tracer)
                try:
                    ep = elf.ElfParser(req["path"])
                    sys.settrace(None)
                    res["opened"] = True
                    if req.get("extra"):
                        # further use of the opened file writes to the database, too
                        from objutils.dwarf import DwarfProcessor

                        DwarfProcessor(ep).do_dbg_info()
                    if not req.get("mute"):
                        res["digest"] = digest(ep)
                    if req.get("close", True):
                        ep.db.close()
                except BaseException as e:
                    sys.settrace(None)
                    res["error"] = "%s: %s" % (type(e).__name__, str(e)[:200])
                res.update(count, io=shim.shim_count() if have_shim else 0, hits=shim.shim_hits() if have_shim else 0)
                os.write(w, json.dumps(res).encode())
            except BaseException as e:
                os.write(w, json.dumps(dict(broken="%s: %s" % (type(e).__name__, e))).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        res = json.loads(data) if data else {}
        res["status"] = -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
        answer.write(json.dumps(res) + "\n")
        answer.flush()


if __name__ == "__main__":
    main()
