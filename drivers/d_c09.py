import sim_sched
from sim_sched import RULE, TRACE
run = sim_sched.make("C09", graphs=False, submit=12)
