TABLE = {
    'C01': ('primef', 'c01'),
    'C03': ('primef', 'c03'),
    'C04': ('primef', 'c04'),
    'C05': ('primef', 'c05'),
    'C06': ('primef', 'c06'),
    'C07': ('primef', 'c07'),
    'C08': ('quad', 'c08'),
    'C09': ('quad', 'c09'),
    'C11': ('roots', 'c11'),
    'C12': ('quad', 'c12'),
    'C13': ('primef', 'c13'),
    'C14': ('primef', 'c14'),
    'C17': ('scalar', 'c17'),
    'C18': ('scalar', 'c18'),
    'C19': ('scalar', 'c19'),
    'C02': ('mixed', 'c02'),
    'C10': ('mult', 'c10'),
    'C20': ('curves', 'c20'),
    'C21': ('points', 'c21'),
    'C22': ('curves', 'c22'),
    'C23': ('curves', 'c23'),
    'C24': ('curves', 'c24'),
    'C25': ('mult', 'c25'),
    'C26': ('curves', 'c26'),
    'C27': ('curves', 'c27'),
    'C40': ('curves', 'c40'),
    'C31': ('maps', 'c31'),
    'C32': ('maps', 'c32'),
    'C33': ('maps', 'c33'),
    'C34': ('maps', 'c34'),
    'C35': ('maps', 'c35'),
    'C28': ('encode', 'c28'),
    'C29': ('encode', 'c29'),
    'C30': ('encode', 'c30'),
    'C36': ('isogenies', 'c36'),
    'C37': ('isogenies', 'c37'),
    'C38': ('isogenies', 'c38'),
    'C39': ('instances', 'c39'),
    'C42': ('text', 'c42'),
    'C15': ('shared', 'c15'),
    'C16': ('shared', 'c16'),
    'C41': ('shared', 'c41'),
}
