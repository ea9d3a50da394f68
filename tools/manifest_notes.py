EXTRA = ["C15"]  # claimed checks that are not in ./check's CHECKS
TECH = {"C19": "deterministic simulation: the bindings under a simulated Python interpreter; seeded histories of calls, drops and collections, seeded faults, the C++ calls as oracle",
        "*": "deterministic simulation: seeded scheduler over parked threads, seeded faults, model oracle",
        "C15": "deterministic simulation: seeded scheduler over threads, switching at any bytecode; seeded faults; independent PDDL reader as oracle"}
LEVEL = {"C19": "Seeded search over histories of calls and of the interpreter's dropping of values, faults and inputs of the real src/python/symbolic.cc in one "
                "process; samples, does not enumerate. pybind11 and the Python interpreter are replaced by a stand-in (sim/pystub) that "
                "follows pybind11's documented rules for conversions, return value policies, keep_alive and overloads. VAL's parser is "
                "replaced by a stand-in too.",
         "*": "Seeded search over schedules, fault sequences and inputs of the real code in one process; samples, does not "
              "enumerate. Preemption at instrumented memory accesses under sequentially consistent memory. VAL's parser and "
              "type checker are replaced by a stand-in.",
         "C15": "Seeded search over schedules, fault sequences, hash seeds and inputs of the real symbolic/problem.py in one "
                "process; samples, does not enumerate. The compiled part of the Python package is not involved."}
NA = {}
