DEF_TECH = "runtime monitoring: ASan/UBSan build driven by generated event histories, recorded observations judged offline by an independent model"
APP_TECH = "runtime monitoring: ASan/UBSan program run on generated inputs, recorded output and status judged offline by an independent model"
DEF_NOTE = ("Holds on the executions observed (seeded random and small exhaustive workloads); trusts the sanitizers and the independent "
            "Python model of change ringing in /verif/vt.")
NA = {}
