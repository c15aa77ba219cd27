SPECIFICATION Spec
CONSTANTS
  Kinds = {}
  Units = 0
  Texts = {"xstrdup", "str_find", "str_findn", "str_copy", "str_copyn", "str_grow", "str_pool_find", "str_pool_copyn", "str_pool_grow", "str_unique", "mem_strcpy", "mem_strncpy", "mem_grow", "arg_add", "arg_addn", "arg_grow", "arg_argify", "arg_quoted", "hsh_insert", "src_line", "src_cpp_line", "err_set_program_name", "prs_register_concrete", "txt_soundex"}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Good Shape
CHECK_DEADLOCK FALSE
