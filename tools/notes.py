DEFAULT = ("runtime monitoring: the real compiler's output is executed on a "
           "monitored command VM and its event/score log is judged online "
           "against a reference interpreter of the source")
DEFAULT_NOTE = ("observed on generated, enumerated and hostile workloads; no "
                "guarantee beyond the executions observed")
TECHNIQUE = {}
LEVEL_NOTE = {}
NA = {}
NOTES = ("python3 run.py <id> [--tier quick|thorough] [--seed N] "
         "[--replay FILE]; KNOWN_FINDINGS.txt lists recorded findings and "
         "repairs")
