import sim_agent
from sim_agent import RULE, TRACE
run = sim_agent.make("C19")
