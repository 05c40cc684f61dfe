#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the text of the properties lives here)"""
import json
import os
P = []


def add(id, title, statement, over, qtext, why, files, mech, state=None,
        observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=a))


XL = 'src/divers/excel.py'
OPT = 'src/BELLA/optimiser.py'
ONE = 'src/BELLA/optimiser_with_one_pdl.py'
PDL = 'src/BELLA/pdl_ini.py'
GRP = 'src/BELLA/pdl_group.py'

add('P01', 'A workbook survives crashes, power loss and failed writes',
    'When saving a table into a results workbook or refitting its columns is '
    'cut short at any point by a killed process, a power loss, a failing '
    'disk operation, an interruption by the user or a lack of memory, the file afterwards still opens and holds exactly the '
    'complete old contents or exactly the complete new contents. A save that '
    'could not be completed reports an error, keeps the old contents and '
    'leaves no other file behind. Once a save has returned, killing the '
    'process no longer loses it.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every sequence of saves and refits, every file-system call at which a '
    'kill, power loss, I/O error, full disk, short or torn write can occur',
    'No test touches a workbook; a crash point inside a save cannot be '
    'reached by an ordinary unit test at all.',
    [XL], [('write to a temporary file, then replace', XL + ' replace_file'),
           ('append_df_to_excel, autofit_column_widths', XL)])

add('P02', 'Saving a table changes nothing else in the workbook',
    'A table saved into a sheet reads back with the same values at the place '
    'asked for (below what the sheet already holds, at a given row, or '
    'instead of the old sheet), and every other sheet and cell keeps its '
    'contents and the sheets keep their order. Refitting the columns changes '
    'no cell contents, and no save changes the access rights of the file. '
    'This holds for every history of saves, including '
    'saves that failed and were repeated.',
    ['histories', 'inputs', 'fault_sequences'],
    'every history of saves, appends, truncations and refits on one or more '
    'workbooks, with failed saves in between',
    'No test touches a workbook; the guarantee is about histories of '
    'operations with failures between them.',
    [XL], [('append row and truncation logic', XL + ' append_df_to_excel'),
           ('column loop', XL + ' autofit_column_widths')])

add('P03', 'A results file is only removed with the consent of the user',
    'An existing results file is deleted only after the user is asked and '
    'answers yes; any other answer, an interruption, the end of the input or '
    'a failing file system leaves the file exactly as it was and ends the '
    'run before any design work or saving. Without an existing file nobody is '
    'asked.',
    ['fault_sequences', 'histories', 'inputs'],
    'every answer typed at the prompt, every failure of the prompt or of the '
    'deletion, on its own and as the first step of an optimisation',
    'Interactive input, its interruption and failing deletions are not '
    'covered by any test.',
    [XL, OPT], [('prompt', XL + ' delete_file'),
                ('first step of a run', OPT + ' BELLA_optimiser')])

add('P04', 'Initial ply-drop layouts are read completely and exactly or not '
    'at all',
    'Reading a workbook of initial ply-drop layouts returns exactly the '
    'layouts it stores, all of them and in their order, or raises an error: '
    'a reading error, a truncated or damaged file never yields fewer or '
    'different layouts silently. An optimisation refuses layouts whose number '
    'of panels or numbers of plies do not fit the structure.',
    ['fault_sequences', 'inputs', 'crash_points'],
    'every set of stored layouts, every read call that can fail or return '
    'less, every truncation or corrupted byte of the file, every wrong '
    'structure',
    'No test reads layouts; failing and partial reads cannot be provoked by '
    'unit tests.',
    [PDL], [('sheet by sheet reading', PDL + ' read_pdls_excel'),
            ('ply-count check', PDL + ' check_pdls_ini')])

add('P05', 'The saved results are the results returned',
    'After a run the results workbook states the designs, stacking sequences, '
    'lamination parameters, ply percentages and numbers, objectives, '
    'penalties and layouts of every tried ply-drop layout, the best of them, and the set-up, with the values that '
    'the run used and returned. When saving is cut short by a failure or '
    'crash, the workbook holds a prefix of what a complete run saves, and '
    'nothing else.',
    ['inputs', 'crash_points', 'fault_sequences'],
    'every problem, every number of layouts with and without a design, every '
    'point at which saving fails',
    'The optimiser is not tested; the saved values depend on the whole run '
    'and on where saving stops.',
    ['src/BELLA/save_result.py', 'src/BELLA/save_set_up.py', OPT],
    [('save_result_BELLAs', 'src/BELLA/save_result.py'),
     ('save_* functions', 'src/BELLA/save_set_up.py')])

add('P06', 'Every generated ply-drop layout is valid',
    'Whatever the random stream and the clock do, every ply-drop layout '
    'generated for a structure gives each panel exactly its number of plies, '
    'drops in a thinner panel every ply that a thicker panel drops, never '
    'drops plies of the thickest panel or covering plies, and is symmetric '
    'when symmetry is required. No layout is returned twice and never more '
    'than asked for.',
    ['schedules', 'inputs', 'configurations'],
    'every structure and set of guidelines, every stream of random numbers, '
    'every progress of the clock during the search',
    'The generation is random and stops on time limits; tests of it exist '
    'nowhere and could sample a handful of streams only.',
    [PDL, GRP, 'src/BELLA/divide_panels.py', 'src/BELLA/format_pdl.py',
     'src/BELLA/pdl_tools.py'],
    [('create_initial_pdls', PDL), ('randomly_pdl_guide', GRP),
     ('global_pdl_from_local_pdl', 'src/BELLA/pdl_tools.py'),
     ('divide_panels', 'src/BELLA/divide_panels.py')])

add('P07', 'The layout search keeps the best layouts found in its time',
    'The layouts returned are those with the smallest ply-drop spacing '
    'penalties among all the different layouts tried before the time limit, '
    'in order of increasing penalty. More time never gives a worse '
    'selection on the same random stream, and asking for fewer layouts '
    'returns the best part of what asking for more returns. Within each group '
    'of plies a layout uses the arrangement with the smallest penalty among '
    'the candidates scored for that group.',
    ['schedules', 'inputs', 'configurations'],
    'every structure, random stream, number of layouts asked for and instant '
    'at which the time limit strikes',
    'Depends on the order in which random candidates appear and on when the '
    'clock stops the search.',
    [PDL, 'src/guidelines/ply_drop_spacing.py', GRP],
    [('keep-best replacement', PDL + ' create_initial_pdls'),
     ('penalty', 'src/guidelines/ply_drop_spacing.py')])

add('P08', 'Time limits bound the layout search',
    'The generation of layouts stops within a bounded number of steps after '
    'its overall time limit, whatever the clock, stalls and the random stream '
    'do, and stops at once when no more layouts are needed. It never stops '
    'before the limit while layouts are missing, and setting the system clock '
    'forwards or backwards changes nothing.',
    ['schedules', 'fault_sequences', 'configurations'],
    'every time limit, speed of the machine, stall and system-clock jump',
    'Real clocks cannot be controlled by tests; limits of minutes would need '
    'minutes.',
    [PDL, GRP, 'src/BELLA/parameters.py'],
    [('time checks', PDL + ' create_initial_pdls'),
     ('time checks', GRP + ' randomly_pdl_guide')])

add('P09', 'The same random seed gives the same designs',
    'Two runs of the same problem from the same random state and the same '
    'progress of the clock return and save identical results, in whatever '
    'process, with whatever hash seed, working directory, time of day or '
    'earlier runs in the process. With given initial layouts the result does '
    'not depend on the random state or the clock at all.',
    ['schedules', 'histories', 'configurations'],
    'all problems; all pairs of environments differing in hash seed, process '
    'history, numeric random state, clock and directory',
    'One process with one hash seed and one clock cannot show it.',
    [OPT, ONE, PDL, GRP],
    [('single random source', GRP), ('no state between runs', OPT)])

add('P10', 'An interrupted or failed run leaves no trace on later runs',
    'A run that is interrupted, runs out of memory or fails at any point can '
    'be repeated with the same objects and then returns exactly what it '
    'returns with new objects, also when the earlier runs used other '
    'parameters. The parameters, guidelines and objective function given by '
    'the user are unchanged after any run.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every point at which an interrupt or failure can strike, every history '
    'of runs on the same objects',
    'An interrupt at an arbitrary point is a schedule that unit tests do not '
    'have.',
    [OPT, ONE, 'src/BELLA/multipanels.py', 'src/BELLA/divide_panels.py'],
    [('temporary change of the group size', OPT),
     ('repeated filtering of targets and weightings',
      'src/BELLA/multipanels.py')])

add('P11', 'Optimisations in several threads do not affect each other',
    'Optimisations of separate structures running at the same time in threads '
    'of one process, interleaved in any way, each return and save exactly '
    'what they do when run alone.',
    ['schedules'],
    'every interleaving of two or more optimisations from given layouts, at '
    'the granularity of executed lines',
    'Thread interleavings are not reproducible in tests.',
    [OPT, ONE, XL], [('no shared mutable state', 'src/BELLA'),
                     ('per-file temporary files', XL + ' replace_file')])

add('P12', 'Returned designs fit the structure and blend',
    'Every design of a run gives each panel a stacking sequence of its number '
    'of plies with allowed fibre angles, in which every ply of a panel '
    'continues with the same angle in every thicker panel, panels of equal '
    'thickness are equal, covering plies are continuous and sequences are '
    'symmetric when required. The table of plies with ply drops and the '
    'stacking sequences agree, and the ply drops form a valid layout. A run '
    'on a valid problem ends with such designs or states that there is none.',
    ['inputs', 'schedules', 'fault_sequences', 'configurations'],
    'all structures, guidelines, parameters, random streams, clocks and '
    'interruptions of earlier runs',
    'No test runs the optimiser; designs depend on the random layouts and on '
    'what the time limits leave.',
    [ONE, 'src/RELAY/repair_mp.py', 'src/RELAY/thick_to_thin.py',
     'src/RELAY/thin_to_thick.py', 'src/BELLA/format_pdl.py'],
    [('blending repair', 'src/RELAY/repair_mp.py'),
     ('conversion', 'src/BELLA/format_pdl.py')])

add('P13', 'Returned designs satisfy the lay-up guidelines',
    'In every design the panel chosen as reference satisfies every lay-up '
    'guideline requested (symmetry, balance, 10% rule, damage tolerance, '
    'disorientation, contiguity). The panels thicker than it satisfy '
    'disorientation too, and all panels satisfy symmetry, damage tolerance, '
    'contiguity and the 10% rule. A run on a valid problem ends with such '
    'designs or states that there is none.',
    ['inputs', 'schedules', 'configurations'],
    'all structures with symmetric laminates of even ply counts, all '
    'combinations of guidelines, random streams and clocks',
    'Guideline functions are tested on single stacks; whether whole runs '
    'respect them is not.',
    ['src/RELAY/repair_mp.py', 'src/RELAY/repair_reference_panel.py',
     'src/RELAY/thick_to_thin.py', 'src/RELAY/thin_to_thick.py', ONE,
     'src/BELLA/pruning.py'],
    [('repair chain', 'src/RELAY/repair_reference_panel.py'),
     ('final checks', 'src/guidelines/one_stack.py')])

add('P14', 'Reported lamination parameters, violations and objectives are '
    'true',
    'The lamination parameters, guideline violations and penalties, ply-drop '
    'spacing penalties, panel objectives and total objective reported for '
    'every tried layout equal those recomputed from the stacking sequences '
    '(the layout, for the spacing) and the targets, weightings and '
    'coefficients given. The numbers of designs reported as having reached '
    'and survived each repair step are those that did. No run on a valid '
    'problem ends in an internal error instead of its report.',
    ['inputs', 'schedules', 'configurations'],
    'all problems, random streams, clocks; every layout and panel of the '
    'tables returned',
    'The reported values pass through pruning, repair and tables that no '
    'test covers.',
    [ONE, 'src/BELLA/objectives.py', 'src/BELLA/results.py',
     'src/BELLA/results_with_one_pdl.py', 'src/BELLA/multipanels.py'],
    [('objective', 'src/BELLA/objectives.py'),
     ('result tables', 'src/BELLA/results.py')])

add('P15', 'The best design over all layouts is the one returned',
    'The design returned is the one with the smallest total objective among '
    'the designs of all the tried layouts; a layout without a feasible '
    'design never hides or displaces the others. Every given layout is tried '
    'unless a design that is practically perfect was found before, and each '
    'layout gives the same design in company as alone. A run for which all '
    'layouts fail says so.',
    ['histories', 'schedules', 'inputs'],
    'all sets and orders of initial layouts, including layouts without any '
    'design',
    'Depends on sequences of layouts of which some fail; not tested at all.',
    [OPT, 'src/BELLA/results.py'],
    [('selection', OPT), ('per-layout tables', 'src/BELLA/results.py')])

add('P16', 'Every run ends in a design or in a stated reason',
    'Every run on a valid problem ends with a design, or with an error that '
    'states that the plies cannot be grouped or that no layout or no design '
    'exists under the guidelines; it never ends in an internal error and '
    'never runs for ever. A problem without guidelines beyond symmetry '
    'whose plies can be grouped always ends with a design. Valid problems '
    'have symmetric laminates of even ply counts that can satisfy the '
    'guidelines.',
    ['inputs', 'configurations', 'schedules'],
    'all symmetric structures of even ply counts (at least 8 with the 10% '
    'rule), guidelines, parameters, random streams and clocks',
    'The input space is the product of structures, guidelines, limits and '
    'random streams; no test enters it.',
    [OPT, ONE, 'src/RELAY/repair_mp.py', 'src/BELLA/divide_panels.py'],
    [('error handling', OPT), ('repair loops', 'src/RELAY')])

add('P17', 'A search without limits misses no better feasible design',
    'When the limits of the search do not bind and the refinements of the '
    'reference panel are switched off, no design of an initial layout that '
    'satisfies all guidelines in all panels has a smaller objective than the '
    'one returned, and if there is such a design the run returns one. '
    'Removing the limits of the ply-angle search never makes the result of a '
    'run worse.',
    ['inputs', 'schedules', 'configurations'],
    'all structures whose designs can be enumerated, all guidelines, '
    'parameters, random streams and clocks',
    'The quality of results is not tested; it needs an exhaustive reference '
    'and whole runs.',
    [ONE, 'src/BELLA/pruning.py', 'src/BELLA/objectives.py',
     'src/RELAY/thick_to_thin.py', 'src/RELAY/thin_to_thick.py'],
    [('beam search', ONE), ('re-design of ply drops', 'src/RELAY')])

add('P18', 'A set-up saved in a workbook runs again as it was',
    'A problem saved in a set-up workbook as the create_input_file scripts '
    'do reaches the optimiser as it was (guidelines, material, objective '
    'coefficients, panels and boundaries; boundary weightings are not part '
    'of set-ups) when it is run with the run_BELLA_from_input_file scripts, '
    'and then gives the same design; penalties saved with a given design are '
    'those of the design. A workbook that is incomplete or damaged, or fails '
    'while it is saved or read, ends in an error, never in a run of another '
    'problem. Running never changes the set-up workbook, nor older results '
    'that the user wants to keep.',
    ['inputs', 'fault_sequences', 'crash_points', 'configurations'],
    'all structures, guidelines and weightings; every disk fault while '
    'saving and reading the set-up',
    'No test saves a set-up or runs a script.',
    ['src/BELLA/save_set_up.py', 'run_BELLA_from_input_file_SST_1.py',
     'run_BELLA_from_input_file_horseshoe.py', 'src/BELLA/panels.py',
     'src/BELLA/multipanels.py', 'src/BELLA/constraints.py'],
    [('saving', 'src/BELLA/save_set_up.py'),
     ('running', 'run_BELLA_from_input_file_*.py')])

add('P19', 'Refining the reference panel never makes it worse',
    'For the same initial layout, a run in which the refinement of the '
    'reference panel towards its in-plane lamination-parameter targets is '
    'switched on returns a reference panel that is never farther from these '
    'in-plane targets than with the refinement off. With the refinement '
    'towards out-of-plane targets switched on, or repeated more often, the '
    'reference panel is never farther from its targets as a whole. This holds '
    'whenever one design of the layout reaches the repair and is repaired in '
    'both runs.',
    ['inputs', 'configurations'],
    'all structures, targets, weightings, guidelines and layouts',
    'Tests of the repairs check their feasibility for a few laminates, not '
    'what they do to the objective of a run.',
    ['src/RELAY/repair_membrane.py', 'src/RELAY/repair_flexural.py',
     'src/RELAY/repair_flexural_1.py', 'src/RELAY/repair_flexural_2.py',
     'src/RELAY/repair_flexural_3.py', 'src/RELAY/repair_reference_panel.py'],
    [('refinement', 'src/RELAY')])

add('P20', 'A design depends only on what defines the problem',
    'Other panel IDs, another order of panels of different thickness, '
    'boundaries listed by other panels, other sizes or loads, a panel '
    'replaced by two twins of half its weighting, and a factor on the '
    'lamination-parameter weightings of a panel leave the designs unchanged. '
    'So do the material, the order of the fibre angles, and values of '
    'guidelines and refinements that are off. '
    'A common factor on the weightings of the panels, or of the boundaries, '
    'only scales the objective or the spacing penalties. The design found '
    'for a layout does not depend on the other layouts of the run, and a run '
    'from the layouts saved by another run returns the designs of that run.',
    ['inputs', 'histories', 'configurations'],
    'all structures, guidelines, layouts and parameters',
    'It relates pairs of whole runs; no test makes one.',
    ['src/BELLA/multipanels.py', 'src/BELLA/optimiser.py',
     'src/BELLA/objectives.py', 'src/BELLA/results.py', PDL],
    [('blending strip', 'src/BELLA/multipanels.py'),
     ('loop over the layouts', OPT)])

add('P21', 'A given design is reported as it is',
    'When a given design (a stacking-sequence table in a workbook) is reported '
    'for a set-up with the format_restults_FXI scripts, the report contains '
    'exactly the set-up (apart from the parameters) and, for each panel, the '
    'laminate with its number of plies in the given table, its lamination '
    'parameters, ply counts and percentages, guideline violations and '
    'stiffnesses, and the ply-drop spacing penalty of the table. A design or '
    'set-up that is incomplete, damaged, or fails while it is read, and a '
    'report that cannot be saved, end in an error, never in a complete report '
    'of another design; a report already there is only replaced with the '
    'consent of the user; set-up and design are never changed; reporting again '
    'after a failure gives the same report.',
    ['inputs', 'fault_sequences', 'crash_points', 'configurations'],
    'all designs, structures and guidelines; every disk fault while the '
    'set-up and the design are read and the report is saved',
    'No test reports a design.',
    ['FXI-results/format_restults_FXI_SST_1.py',
     'FXI-results/format_restults_FXI_horseshoe.py',
     'src/BELLA/save_result.py', 'src/BELLA/format_pdl.py',
     'src/divers/excel.py'],
    [('reporting', 'FXI-results/format_restults_FXI_*.py'),
     ('saving', 'src/BELLA/save_result.py')])

add('P22', 'A set-up is made only of a design that can be manufactured',
    'The create_input_file scripts for given designs (SST and horseshoe2) '
    'make a set-up of a design exactly if the design satisfies the lay-up '
    'guidelines that the script checks (damage tolerance, balance, '
    'disorientation, contiguity, 10% rule; for the SST also covering and '
    'ply-drop spacing); otherwise they end in an error and leave no set-up. '
    'The set-up made has the lamination-parameter targets, ply counts, panels, '
    'boundaries, guidelines and penalties of the design. A design workbook '
    'that is incomplete, damaged or fails while it is read, or a set-up that '
    'cannot be saved, ends in an error, never in a set-up of another design; '
    'an older set-up is only replaced with the consent of the user; the design '
    'workbook is never changed; creating the set-up again after a failure '
    'succeeds.',
    ['inputs', 'fault_sequences', 'crash_points', 'configurations'],
    'all designs that satisfy or violate guidelines, all settings of the '
    'guidelines; every disk fault while reading and saving',
    'No test runs a script or checks a whole design.',
    ['input-files/create_input_file_SST.py',
     'input-files/create_input_file_horseshoe2.py',
     'src/guidelines/one_stack.py', 'src/guidelines/disorientation.py',
     'src/guidelines/contiguity.py', 'src/guidelines/dam_tol.py',
     'src/guidelines/balance.py', 'src/guidelines/ten_percent_rule.py',
     'src/guidelines/ply_drop_spacing.py', 'src/BELLA/save_set_up.py'],
    [('deciding', 'src/guidelines/one_stack.py check_lay_up_rules'),
     ('saving', 'src/BELLA/save_set_up.py')])

# ---- properties stated but not claimed (pure functions of their input)
add('N01', 'Guideline checks of one laminate follow their definitions',
    'Each function that tests or scores one stacking sequence against a '
    'guideline agrees with the definition of the guideline for every stacking '
    'sequence.', ['inputs'], 'all stacking sequences and settings',
    'Tests sample a few sequences.',
    ['src/guidelines/balance.py', 'src/guidelines/contiguity.py',
     'src/guidelines/ten_percent_rule.py', 'src/guidelines/disorientation.py'],
    [('guideline functions', 'src/guidelines')])
add('N02', 'Settings out of range are refused',
    'Constraints, parameters, objective coefficients, materials, panels and '
    'structures refuse values outside of their documented ranges.',
    ['inputs'], 'all constructor arguments', 'No test constructs them.',
    ['src/BELLA/constraints.py', 'src/BELLA/parameters.py',
     'src/BELLA/obj_function.py', 'src/BELLA/panels.py',
     'src/BELLA/materials.py'],
    [('constructors', 'src/BELLA')])
add('N03', 'Buckling factors follow classical plate theory',
    'The buckling load factors of a simply supported panel equal those of the '
    'closed-form solution for its bending stiffness and loads.',
    ['inputs'], 'all panels and stacking sequences', 'No test covers it.',
    ['src/buckling/buckling.py'], [('buckling_factor', 'src/buckling')])
add('N04', 'Array, sorting and subset helpers meet their documentation',
    'The helper functions for arrays, sorting, subset sums and ply orders '
    'return what their documentation states for every input.',
    ['inputs'], 'all arguments', 'Tests sample a few arrays.',
    ['src/divers/arrays.py', 'src/divers/sorting.py',
     'src/BELLA/ply_order.py', 'src/BELLA/moments_of_areas.py'],
    [('helpers', 'src/divers')])
add('N05', 'The single-laminate optimiser returns feasible laminates',
    'The single-laminate optimiser returns a laminate that satisfies the '
    'guidelines requested.',
    ['inputs'], 'all targets, ply counts and guidelines', 'Not tested.',
    ['src/LAYLA_V02/optimiser.py'], [('LAYLA_optimiser', 'src/LAYLA_V02')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
