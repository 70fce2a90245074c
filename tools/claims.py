S = 'stateless model checking of the real code under a controlled scheduler'
Q = 'exhaustive bounded operation-sequence exploration of the real code against a reference model'
E = 'exhaustive enumeration of a finite input/fault space on the real code against a reference model'
A = ('Exhaustive within the bounds recorded in the evidence file (preemption bound, operation depth, domains); '
     'trusts the reference model in checks/%s.py, the virtual lock/clock layer and C-level atomicity of builtins.')
CLAIMS = {}
NOT_APPLICABLE = {}


def claim(i, *techs):
    CLAIMS[i] = ('; '.join(techs), A % i.lower())


claim('C01', S, Q)
claim('C02', S, Q)
claim('C03', S, Q)
claim('C04', Q, S)
claim('C05', S, Q)
claim('C06', S, Q)
claim('C07', S)
claim('C08', S, Q)
claim('C09', Q, S)
claim('C10', S)
claim('C11', Q, E)
claim('C12', Q)
claim('C13', Q, S)
claim('C14', Q, S)
claim('C15', Q, S)
claim('C16', Q, E)
claim('C17', Q, S)
claim('C18', Q, E, S)
claim('C19', Q, E)
claim('C20', Q, S)
claim('C21', Q, E, S)
claim('C22', Q, E)
claim('C23', Q, E)
claim('C24', Q, E)
claim('C25', Q, E)
claim('C26', S, Q)
claim('C27', E, Q)
claim('C28', E, Q, S)
claim('C29', Q, E)
claim('C30', E, Q)
claim('C31', E, S)
claim('C32', Q, S)
claim('C33', Q, E, S)
claim('C36', E, Q)
claim('C34', E, Q)
claim('C35', E)
claim('C37', E, Q)
claim('C38', E)
claim('C39', E)
claim('C40', E)
claim('C41', E)
claim('C42', S, E)
claim('C43', S)
claim('C44', E, Q, S)
claim('C45', E, S)
claim('C46', S)
claim('C47', S)
claim('C48', Q, E)
NOTES = 'All checks: bash run.sh <id> <quick|thorough>; replay: bash run.sh replay <file>. Known findings: known_findings.txt.'
