import sim_sched
from sim_sched import RULE, TRACE
run = sim_sched.make("C10", graphs=None, cancel=6)
