"""Records which files a process opens for writing (VF_LOG)."""
import os
import sys

if os.environ.get('VF_LOG'):
    _fd = os.open(os.environ['VF_LOG'], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    _here = os.getcwd()

    def _hook(event, args):
        if event == 'open' and isinstance(args[0], str):
            mode, flags = args[1], args[2]
            if (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (mode is None and flags & (os.O_WRONLY | os.O_RDWR)):
                p = os.path.abspath(args[0])
                if p.startswith(_here + os.sep):
                    os.write(_fd, f"{os.environ.get('VF_RANK', os.environ.get('OMPI_COMM_WORLD_RANK', '0'))} {p}\n".encode())
    sys.addaudithook(_hook)
