"""Property id -> (module under props/, function)."""
CHECKS = {
    'C06': ('values', 'c06'),
    'C07': ('values', 'c07'),
    'C08': ('values', 'c08'),
    'C01': ('calls', 'c01'),
    'C04': ('calls', 'c04'),
    'C02': ('calls', 'c02'),
    'C05': ('names', 'c05'),
    'C14': ('names', 'c14'),
    'C19': ('names', 'c19'),
    'C13': ('registry', 'c13'),
    'C12': ('locks', 'c12'),
    'C15': ('scopes', 'c15'),
    'C16': ('scopes', 'c16'),
    'C17': ('scopes', 'c17'),
    'C20': ('lexer', 'c20'),
    'C21': ('lexer', 'c21'),
    'C22': ('parse', 'c22'),
    'C23': ('parse', 'c23'),
    'C24': ('printing', 'c24'),
    'C25': ('printing', 'c25'),
    'C26': ('dispatch', 'c26'),
    'C27': ('dispatch', 'c27'),
    'C09': ('signatures', 'c09'),
    'C28': ('options', 'c28'),
    'C10': ('errors', 'c10'),
    'C11': ('dsl', 'c11'),
    'C18': ('lifecycle', 'c18'),
    'C29': ('builtins', 'c29'),
    'C30': ('builtins', 'c30'),
    'C31': ('tokens', 'c31'),
    'C32': ('describe', 'c32'),
    'C33': ('nested', 'c33'),
    'C34': ('uses', 'c34'),
    'C03': ('calls', 'c03'),
}
