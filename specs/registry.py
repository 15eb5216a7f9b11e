"""property id -> units, driver and the assumptions its check leaves unchecked"""

COMMON_TRUSTED = [
    "vc/: the verification-condition generator and its semantics of the Python subset (CPython object semantics, no monkey-patching, no threads inside a unit)",
    "z3 5.3.2 and cvc5 1.1.2",
    "Python integers are mathematical; floats are treated as real numbers",
    "annotations on fields and parameters are taken as the types of their values",
    "hash/equality of opaque values (bytes ids, user objects) is a lawful equality",
]


def name_in(*names):
    return lambda u: any(u == n or u.startswith(n + ".") for n in names)


def name_not(*names):
    return lambda u: not name_in(*names)(u)


def skip(*parts):
    """leave out the obligations that belong to another property sharing the unit"""
    return lambda o: not any(p in o for p in parts)


def only(*parts):
    """the obligations of this property in a shared unit (an exception escaping the function concerns every property of the unit)"""
    return lambda o: any(p in o for p in parts) or ": raised " in o


COUNTERS = "counted once under its own status"
SCHED = ["within one handler of the scheduler nothing else runs: asyncio sends on unbounded sockets do not wait (high-water marks checked under C23), so each handler and each routine run is one step",
         "task ids are unique among the tasks alive (uuid1 on the client); a client sends well-formed messages",
         "the containers and the allocator behave as their contracts under C02, C03, C04, C05 say",
         "the handlers start from states satisfying the listed invariant, which every handler is proved to re-establish (induction over histories; the constructors establish it with empty containers)"]

AGENT = ["within one handler of the worker agent nothing else runs: sends on unbounded sockets do not wait (C23), so a handler is one step; the only waits are those of the task manager's routine, whose state is proved whole at each",
         "asyncio.Lock and asyncio.Event behave as documented; a killed process sends nothing more, and the only process connected is the one started last",
         "task ids are unique among the tasks at a worker (C07: a task is outstanding at one worker, sent once)",
         "IndexedQueue behaves as its contract under C02 says"]

GRAPH = ["the graph manager's handlers start from states satisfying its listed invariant; that starting a graph, and a node's result after which others start, re-establish it is checked on random histories only",
         "graphlib.TopologicalSorter behaves as documented: a node is ready once, when all its predecessors are done",
         "a client submits acyclic graphs over distinct new task ids (C16)"]

CLIENT = ["within one callback of the connector or one submission nothing else runs (the interleavings are decided under C26); callbacks and submissions start from states satisfying the listed invariant, which each is proved to re-establish",
          "concurrent.futures.Future behaves as documented, and its user may cancel it at any moment while it is pending; uuid1 identifiers are new",
          "the scheduler acknowledges a task before it answers it (C09) and sends one result at most for each (C08); graph results have one payload for each key, or one for the failure (C13)"]

FRAME_COUNTERS = ("counter",)
PROPS = {
    "C01": {"units": [("proto", None)], "assumptions": ["struct.pack and struct.unpack are inverse on values that fit the format (single precision for 'f')", "values fit the wire format (counts below 2**32, shares below 65.536)"]},
    "C02": {"units": [("queues", name_in("IndexedQueue"))], "assumptions": ["asyncio.Queue (unbounded, one event loop) behaves as documented: put = _put and wake, get = wait until non-empty, then _get"]},
    "C03": {"units": [("queues", name_in("PriorityQueue"))], "assumptions": ["heapq contracts (heappush, heappop, _siftdown)", "priorities are load counts: never below zero, an entry lowered has at least one"]},
    "C04": {"units": [("maps", None)]},
    "C05": {"units": [("alloc", name_not("QueuedAllocator.balance", "QueuedAllocator.statistics")), ("queues", name_in("PriorityQueue"))],
            "assumptions": ["heapq contracts (heappush, heappop, _siftdown)"]},
    "C06": {"units": [("alloc", name_in("QueuedAllocator.balance")), ("sched", name_in("WorkerManager.routine"), only("]: advice:", "message", "told", "visited"))], "assumptions": SCHED},
    "C07": {"units": [("sched", name_in("TaskManager", "WorkerManager"), skip(COUNTERS, "]: advice:"))], "assumptions": SCHED},
    "C08": {"units": [("sched", name_in("WorkerManager.on_task_done"), skip(COUNTERS))], "assumptions": SCHED},
    "C09": {"units": [("sched", name_in("TaskManager.on_task_new"))], "assumptions": SCHED},
    "C10": {"units": [("sched", name_in("TaskManager.on_task_cancel"), skip(COUNTERS))], "assumptions": SCHED},
    "C11": {"units": [("sched", name_in("FunctionManager"))], "assumptions": SCHED},
    "C12": {"units": [("sched", name_in("TaskManager.on_task_new", "TaskManager.routine"), skip(COUNTERS))], "assumptions": SCHED + GRAPH,
            "bounded": ["GraphManager.routine", "GraphManager.on_task_done, result of a node that lets others start"],
            "note": "Part proof, part bounded. Proved for all states: a node handed over by the graph manager is accepted whatever the room left, queued once, bound to its client, and sent with the message it was handed over with. "
                    "Bounded only (random histories over the real managers against a reference model): which nodes the graph manager hands over, when, and with which arguments. "},
    "C13": {"units": [("graph", name_in("GraphManager.on_graph_task_cancel", "GraphManager.on_task_done")), ("sched", name_in("TaskManager.on_task_cancel"), skip(COUNTERS))], "assumptions": SCHED + GRAPH,
            "bounded": ["GraphManager.routine", "GraphManager.on_task_done, result of a node that lets others start"],
            "note": "Part proof, part bounded. Proved for all states: the last node's success ends the graph with one success result carrying the targets' results in order; a node's failure or cancellation ends it with one result of that status and payload; "
                    "both, and a cancellation, withdraw every running node, release the function of every waiting one and leave no bookkeeping of the graph; results of no graph's node and cancellations of unknown graphs change nothing. "
                    "Bounded only (random histories over the real managers against a reference model): starting a graph, and the result of a node after which others start. "},
    "C14": {"units": [("client", name_in("Client.submit"), only("binding:", "must raise"))],
            "assumptions": ["inspect.signature lists positional parameters first, required before optional, with distinct names, and bind refuses exactly what a direct call would refuse", "serialize_argument is a function of its argument (C01, pickle); the function's signature does not change between submission and run"]},
    "C15": {"units": [("client", name_in("Client.task echo", "Client.task result", "Client.graph result", "Client.exit", "Client.unknown message", "Client.disconnect", "Client.submit"), skip("binding:", "[function gone", "submit [arguments"))], "assumptions": CLIENT},
    "C17": {"units": [("client", name_in("Client.task echo", "Client.function response", "Client.submit"), skip("binding:", "future", "submit [arguments"))], "assumptions": CLIENT},
    "C18": {"units": [("agent", name_in("TaskManager"))], "assumptions": AGENT},
    "C19": {"units": [("agent", name_not("TaskManager"))], "assumptions": AGENT},
    "C20": {"units": [("processor", None)], "assumptions": ["one task at a time: the agent hands over the next task only after the result of the one before (C19)", "user code fails with Exception or SystemExit (KeyboardInterrupt asks the processor to stop)",
        "the clean-up thread may drop a cached function at any moment", "messages handed to the connector reach the agent", "pickling an exception fails with an Exception"]},
    "C21": {"units": [("sched", name_in("WorkerManager.on_heartbeat", "WorkerManager.on_disconnect", "WorkerManager.routine"), skip(COUNTERS, "]: advice:"))], "assumptions": SCHED},
    "C22": {"units": [("zmqc", None)], "assumptions": ["hosts of tcp addresses hold no ':' (literal IPv6 addresses are not supported anywhere in scaled)", "str(n) of an integer is a decimal numeral without ':' or '/', and int() reads it back; int() accepts no text with ':' or '/'", "port is an int, not a bool"]},
    "C23": {"units": [("frames", name_not("AsyncBinder.statistics"), skip(*FRAME_COUNTERS))],
            "assumptions": ["zmq hands over each frame list whole, the sender's identity first on the binder", "a well-formed message of a kind decodes (C01)", "a kind in the tag table has a handler in at least one receiver; kinds nobody expects are only logged"]},
    "C24": {"units": [("cache", None)], "assumptions": ["the function stored is not None", "each operation and each clean-up round runs without the other thread interleaving (the GIL makes the single dictionary steps atomic)"]},
    "C25": {"units": [("sched", name_in("TaskManager.statistics", "WorkerManager.statistics", "FunctionManager.statistics", "ClientManager.statistics")),
                      ("sched", name_in("WorkerManager.on_task_done", "TaskManager.on_task_cancel"), only(COUNTERS)), ("alloc", name_in("QueuedAllocator.statistics")),
                      ("frames", name_in("AsyncBinder", "AsyncConnector"), only(*FRAME_COUNTERS))], "assumptions": SCHED},
}

NOT_APPLICABLE = {
    "C16": "no contract discharged: graph building in the client works on nested user tuples of any shape (starred unpacking, comprehensions drawing fresh identifiers), outside what the generator's loop invariants reach so far; a random driver without a proof (drivers/d_c16.py) is not registered as a check",
    "C26": "interleavings of the user's thread with the connector's thread: contracts over sequential steps take each step as atomic; they cannot state where the interpreter may switch threads (the locking repair 4c52072 was found by reading the code)",
    "C27": "liveness over whole executions of several processes (fair scheduling, network delivery, timers): contracts over single calls cannot state eventual completion; the safety halves are decided under C07, C10, C12, C15 and C18",
    "C28": "termination of operating-system processes after signals: the outcome depends on the OS, blocking native calls and process state outside any contract of the Python code",
}
