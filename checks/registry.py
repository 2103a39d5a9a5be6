CHECKS = {
    "C01": ("c_dispatch", "run_registry"),
    "C02": ("c_device", "run_guards"),
    "C03": ("c_device", "run_protocol"),
    "C04": ("c_kernel", "run_forward"),
    "C05": ("c_kernel", "run_backward"),
    "C06": ("c_kmem", "run_bounds"),
    "C26": ("c_graph", "run_leaves"),
    "C28": ("c_pure", "run_pure"),
    "C27": ("c_borrow", "run_borrow"),
    "C24": ("c_kmem", "run_writes"),
    "C25": ("c_kmem", "run_assigned"),
    "C07": ("c_operator", "run_vjp"),
    "C08": ("c_operator", "run_shapes"),
    "C09": ("c_graph", "run_eval"),
    "C10": ("c_graph", "run_grad"),
    "C11": ("c_funcs", "run_parity"),
    "C12": ("c_funcs", "run_overloads"),
    "C13": ("c_owner", "run_tensors"),
    "C14": ("c_owner", "run_pool"),
    "C15": ("c_optim", "run_rules"),
    "C16": ("c_optim", "run_step"),
    "C17": ("c_model", "run_enumeration"),
    "C18": ("c_persist", "run_persist"),
    "C21": ("c_init", "run_init"),
    "C22": ("c_init", "run_random"),
    "C23": ("c_funcs", "run_contrib"),
    "C19": ("c_extent", "run_extents"),
    "C20": ("c_shape", "run_rules"),
}
