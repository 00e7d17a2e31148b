# per property: workload group, budgets, what is real and what is simulated
SYNC_REAL = ["all of src/lightspeed (compiled from /repo with access instrumentation)", "libstdc++", "heap users"]
SYNC_STUB = ["OS threads (fibers under a seeded scheduler)", "semaphores", "clocks and sleeps", "heap allocator (checking arena)"]
IO_STUB = SYNC_STUB + ["file system (volatile and durable content, directory journal)", "pipes", "flock"]
NET_STUB = SYNC_STUB + ["TCP and UDP (latency, windows, loss, duplication, reordering, resets)", "poll / epoll / select", "name resolution", "pipes"]
PROPS = {
    "C01": dict(title="Locks exclude and hand over", group="locks", real=SYNC_REAL, stub=SYNC_STUB),
    "C02": dict(title="Shared/exclusive locks", group="sync", real=SYNC_REAL, stub=SYNC_STUB),
    "C03": dict(title="Semaphore permits are conserved", group="sync", real=SYNC_REAL, stub=SYNC_STUB),
    "C04": dict(title="Wait queues, gates and notifiers", group="sync", real=SYNC_REAL, stub=SYNC_STUB),
    "C05": dict(title="Thread life cycle", group="threads", real=SYNC_REAL, stub=SYNC_STUB),
    "C06": dict(title="Sleeping, wake up and timeouts", group="threads", real=SYNC_REAL, stub=SYNC_STUB),
    "C07": dict(title="Shared ownership and weak references", group="memory", real=SYNC_REAL, stub=SYNC_STUB),
    "C08": dict(title="Lock-free lists and pool allocators", group="memory", real=SYNC_REAL, stub=SYNC_STUB),
    "C09": dict(title="Singletons and thread variables", group="memory", real=SYNC_REAL, stub=SYNC_STUB),
    "C10": dict(title="Promises resolve once", group="actions", real=SYNC_REAL, stub=SYNC_STUB),
    "C11": dict(title="Waiting, cancelling and combining futures", group="actions", real=SYNC_REAL, stub=SYNC_STUB),
    "C12": dict(title="Parallel executors", group="execs", real=SYNC_REAL, stub=SYNC_STUB),
    "C13": dict(title="Message queues and queue executors", group="execs", real=SYNC_REAL, stub=SYNC_STUB),
    "C15": dict(title="File streams", group="files", real=SYNC_REAL, stub=IO_STUB),
    "C16": dict(title="Commit on close", group="files", real=SYNC_REAL, stub=IO_STUB),
    "C17": dict(title="Directories and whole files", group="files", real=SYNC_REAL, stub=IO_STUB),
    "C18": dict(title="Buffered streams", group="streams", real=SYNC_REAL, stub=IO_STUB + ["the stream behind the buffer (scripted short, failing and refused calls)"]),
    "C14": dict(title="Resource pools", group="execs", real=SYNC_REAL, stub=SYNC_STUB),
    "C20": dict(title="Event selectors and listeners", group="select", real=SYNC_REAL, stub=NET_STUB),
    "C29": dict(title="Containers", group="containers", real=SYNC_REAL, stub=SYNC_STUB),
    "C30": dict(title="Strings and formats", group="formats", real=SYNC_REAL, stub=SYNC_STUB),
    "C31": dict(title="Converters", group="formats", real=SYNC_REAL, stub=SYNC_STUB),
    "C32": dict(title="JSON", group="json", real=SYNC_REAL, stub=SYNC_STUB + ["streams under the parser and serializer (short and failing calls)"]),
    "C33": dict(title="Configuration, queries and command lines", group="config", real=SYNC_REAL, stub=IO_STUB),
    "C28": dict(title="Sending of mails", group="mail", real=SYNC_REAL, stub=NET_STUB + ["the mail server (scripted SMTP, refusing any command or leaving at any byte)"]),
    "C27": dict(title="Fibers", group="fibers", real=SYNC_REAL, stub=SYNC_STUB),
    "C26": dict(title="Service instance", group="instance", real=SYNC_REAL, stub=IO_STUB + ["kernel processes, shared memory and process shared semaphores (simulated)"]),
    "C25": dict(title="Processes", group="process", real=SYNC_REAL, stub=IO_STUB + ["kernel processes: vfork, execve, waitpid, kill, signals, descriptors of each process (simulated)", "the programs started"]),
    "C24": dict(title="Logging", group="logs", real=SYNC_REAL, stub=IO_STUB),
    "C23": dict(title="HTTP client", group="http", real=SYNC_REAL, stub=NET_STUB + ["the HTTP server (scripted responses, cut at any byte)"]),
    "C22": dict(title="Event log", group="eventdb", real=SYNC_REAL, stub=IO_STUB),
    "C21": dict(title="TCP server", group="server", real=SYNC_REAL, stub=NET_STUB),
    "C19": dict(title="Network streams and datagrams", group="net", real=SYNC_REAL, stub=NET_STUB),
}
