"""Property -> rules that decide it."""

RULES = {
    'C01': [('keys.rule_step',), ('keys.rule_run',), ('keys.rule_seed',), ('keys.rule_ambient',), ('history.rule_interface',), ('history.rule_functions',)],
    'C02': [('mutation.rule_containers',), ('mutation.rule_user_arrays',)],
    'C03': [('trees.rule_routing',), ('trees.rule_routing_deep',)],
    'C04': [('grids.rule_bin_types',), ('grids.rule_binning',), ('gb.rule_plumbing',)],
    'C05': [('grids.rule_count_types',), ('grids.rule_quantile',), ('grids.rule_quantile_large',), ('grids.rule_uniform',), ('grids.rule_unique',)],
    'C06': [('interface.rule_state_types',), ('interface.rule_transforms',), ('proposal.rule_deep',), ('accept.rule_deep',)],
    'C07': [('accept.rule_ratio', 'likelihood'), ('accept.rule_deep', 'likelihood'), ('accept.rule_many_trees', 'likelihood'), ('accept.rule_many_points', 'likelihood')],
    'C08': [('accept.rule_ratio', 'transition'), ('accept.rule_deep', 'transition'), ('accept.rule_many_trees', 'transition'), ('proposal.rule_wide', 'ratio'), ('proposal.rule_partial_ratio',)],
    'C09': [('accept.rule_decision',), ('accept.rule_deep', 'decision'), ('accept.rule_many_trees', 'decision'), ('accept.rule_many_points', 'decision')],
    'C10': [('accept.rule_leaves',), ('accept.rule_deep', 'leaves'), ('accept.rule_many_trees', 'leaves'), ('accept.rule_many_points', 'leaves')],
    'C11': [('noise.rule_sigma',), ('noise.rule_step',)],
    'C12': [('accept.rule_residuals',), ('accept.rule_deep', 'residuals'), ('accept.rule_many_trees', 'residuals'), ('accept.rule_many_points', 'residuals'), ('accept.rule_batch_sizes',), ('accept.rule_batch_sizes_many',)],
    'C13': [('accept.rule_structure',), ('accept.rule_deep', 'structure'), ('accept.rule_many_trees', 'structure'), ('accept.rule_many_points', 'structure')],
    'C14': [('loop.rule_run',), ('gb.rule_schedule',)],
    'C15': [('loop.rule_callback',)],
    'C16': [('gb.rule_output',), ('history.rule_inputs_now',), ('trees.rule_evaluate',), ('trees.rule_routing_deep',), ('trees.rule_trace',), ('history.rule_interface',)],
    'C17': [('interface.rule_units',), ('grids.rule_units',)],
    'C18': [('batch.rule_autobatch',)],
    'C19': [('gb.rule_prior',), ('gb.rule_defaults',), ('gb.rule_options',)],
    'C20': [('interface.rule_matrix',)],
    'C21': [('trees.rule_predicates',)],
    'C22': [('proposal.rule_choice',), ('proposal.rule_wide', 'choice')],
    'C23': [('initial.rule_init',), ('initial.rule_init_noise',), ('initial.rule_capacity',), ('initial.rule_options',)],
    'C24': [('diag.rule_depths',), ('diag.rule_points',), ('diag.rule_check',)],
    'C25': [('interface.rule_rejected',), ('interface.rule_accepted',)],
    'C27': [('reports.rule_progress',), ('reports.rule_progress_interface',)],
    'C28': [('reports.rule_fit',)],
    'C32': [('shown.rule_print',)],
    'C26': [('proposal.rule_rule_choice',), ('proposal.rule_deep',), ('proposal.rule_no_cutpoints',)],
}

# configurations past the capacity of the narrow integers; their cost depends
# on how the code is written
LARGE = {'accept.rule_batch_sizes_many', 'accept.rule_many_trees', 'accept.rule_many_points', 'proposal.rule_wide'}
