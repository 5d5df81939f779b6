"""The real primitives, saved before anything is patched."""
import _thread
import os
import time

allocate_lock = _thread.allocate_lock
start_new_thread = _thread.start_new_thread
get_ident = _thread.get_ident
strerror = os.strerror
_exit = os._exit
getuid = os.getuid
getgid = os.getgid
time_time = time.time
monotonic = time.monotonic
sleep = time.sleep
os_write = os.write
os_read = os.read
os_close = os.close
os_pipe = os.pipe
os_fork = os.fork
os_waitpid = os.waitpid
os_kill = os.kill
os_open = os.open
os_path_exists = os.path.exists
builtin_open = open
RLock = _thread.RLock

os_wait4 = os.wait4
