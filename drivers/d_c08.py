import sim_sched
from sim_sched import RULE, TRACE
run = sim_sched.make("C08", graphs=None, result=9)
