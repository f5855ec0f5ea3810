NOT = {}
CODEC = 'TLA+ codec specification (TLC): enumerated behaviours replayed into the real code, recorded results of random inputs checked by TLC'
CLAIMED = {
 'C01': (CODEC, 'model_checking', 'exhaustive over the model alphabet, random beyond it; trusts ASan and the text protocol of the harness'),
 'C02': (CODEC, 'model_checking', 'exhaustive single damages of the model messages, random beyond; trusts ASan to see accesses outside the exact-size buffer'),
 'C03': ('TLA+ container specification (TLC): every operation sequence up to the bound replayed into the real classes, random long sequences validated by TLC', 'model_checking', 'exhaustive to depth 3 from two starting states, random to 25 operations'),
}

NET = 'TLA+ specification of one end of a connection (Endpoint.tla): executions of the real library under a deterministic scheduler with virtual time, every trace validated by TLC (ConnTrace.tla); stimulus sequences enumerated by TLC (MCEnd.tla) replayed into the real code; two joined ends model-checked (MCPair.tla)'
for _i in ['C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C21','C22','C23','C24','C25']:
    CLAIMED[_i] = (NET, 'model_checking', 'enumerated sequences of up to 5 (thorough: 6) stimuli and longer random scenarios, random schedules, over real sockets; interleavings at system calls and locks (and every few basic blocks in a third of the runs); raw peers and library peers; virtual time')

SRV = 'TLA+ specifications of a server (Server.tla) and of its connections (Endpoint.tla): executions of the real library under a deterministic scheduler with virtual time, every trace validated by TLC (ServerTrace.tla, ConnTrace.tla); stimulus sequences enumerated by TLC (MCServer.tla) replayed into the real code'
for _i in ['C17', 'C18', 'C19', 'C20']:
    CLAIMED[_i] = (SRV, 'model_checking', 'enumerated sequences of up to 5 (thorough: 6) stimuli and longer random scenarios, random schedules, over real sockets: raw and library clients, handlers that call back, lookups from several threads, limits, stops, restarts, failing starts')
