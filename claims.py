EXH = ('stateless exploration of the real code: bounded-exhaustive enumeration of a choice tree, every case run through the real '
       'pipeline and compared with an independent reference')
HIST = ('explicit-state / stateless enumeration of all operation histories up to a depth bound, executed on the real code, every step compared with an independent model or '
        'a fresh-process reference')
C = {
    'C01': (EXH, 'exploration', 'all aircraft within a bounded number of departures from a default, floats from finite alphabets'),
    'C02': (EXH, 'exploration', 'all control placements on a grid, one and two controls, all orders'),
    'C03': (EXH, 'exploration', 'all aircraft within a bounded number of departures times the angle grid'),
    'C04': (EXH, 'exploration', 'all mirrored wings within a bounded number of departures, three planes'),
    'C05': (EXH, 'exploration', 'all configurations and flight states within a bounded number of departures, each run with its mirror image'),
    'C06': (EXH, 'exploration', 'all control layouts, deflections and airfoils within a bounded number of departures'),
    'C07': (EXH, 'exploration', 'all lattices and flow conditions within a bounded number of departures, every matrix entry'),
    'C08': (EXH, 'exploration', 'all lattices, flow conditions and reference values within a bounded number of departures'),
    'C09': (EXH, 'exploration', 'all configurations and flow conditions within a bounded number of departures, each with its transformed partners'),
    'C10': (HIST, 'model_checking', 'all sequences of flight states and of analyses in one process up to a length bound, on the real code'),
    'C11': (EXH, 'exploration', 'all forms of flight-state input within the stated grids'),
    'C12': (EXH, 'exploration', 'all aircraft and states within a bounded number of departures, repeated save/load cycles'),
    'C13': (HIST, 'model_checking', 'all settings dictionaries within a bounded number of departures, and all operation histories on two instances up to a depth bound'),
    'C14': (EXH, 'exploration', 'every single defect (thorough: every pair) from a catalogue at every place of the valid baseline definitions'),
    'C15': ('explicit-state search over all sequences of commands up to a depth bound, each transition executed by the real command line on the restored directory and compared with an independent model',
            'model_checking', 'breadth-first, states identified by directory contents'),
    'C16': (EXH, 'exploration', 'all subsets of save and plot options x configurations x state lists'),
    'C17': (EXH, 'exploration', 'all wing names, file entries, field shapes and configurations within a bounded number of departures'),
    'C18': (EXH, 'exploration', 'all sets of up to three command-line options in all orders'),
    'C19': (EXH, 'exploration', 'all segment shapes within a bounded number of departures in all seven ways of definition, all subsets of corners and dimensions'),
    'C21': (EXH, 'exploration', 'all combinations of given and open panel counts, settings, control layouts and segment shares within a bounded number of departures'),
    'C20': (EXH, 'exploration', 'all CPACS models (built for an in-memory stand-in of the CPACS libraries) within a bounded number of departures from a default'),
    'C22': ('exhaustive fault injection: every file operation of the real command x every kind of fault (error, torn, disk full, process death before or in the middle), injected below the interpreter, each compared with an undisturbed run and repeated without fault',
            'fault_enumeration', 'one fault per run, all positions'),
    'C23': ('stateless exploration of the real kernels: bounded-exhaustive enumeration of lattices and flow states, each executed in four builds (plain, address/undefined sanitizer, two fill patterns of uninitialised '
            'memory), every stage called twice, with everything the process holds compared before and after', 'exploration', 'all lattices up to a panel bound within a bounded number of departures'),
    'C24': (EXH, 'exploration', 'all configurations within a bounded number of departures times all rewritings of the stated kinds'),
    'C25': (EXH, 'exploration', 'every damage of the catalogue at every place (every byte) of every input file, one damage per run, and pairs of files'),
    'C26': (EXH, 'exploration', 'all configurations, flight states and plotted quantities within a bounded number of departures; figures examined as objects'),
    'C27': (EXH, 'exploration', 'all database aircraft x spellings x user changes within a bounded number of departures, by the real command line'),
    'C28': (EXH, 'exploration', 'all placements, spellings, surroundings and commands within a bounded number of departures, by the real command line'),
    'C29': ('stateless exploration of two real analyses under a controlled scheduler: every interleaving up to a preemption bound, threads switched at executed lines, processes at file operations', 'model_checking',
            'one preemption at every line and file operation, two (thorough: three) at calls of the run function and file operations; C++ kernels are atomic'),
}
NA = {}
