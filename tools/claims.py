VG = 'abstract interpretation: value-graph (gated SSA) comparison of the library with specification functions; loops summarised, primitives algebraic'
CLAIMS = {
 'C33': ('static typestate analysis over SSA: every error follows its failure paths to an error return', 'all library functions, all intraprocedural failure paths'),
 'C01': (VG, 'all inputs and sizes; transcripts of protocol kinds and uniform kinds'),
 'C02': (VG, 'all inputs and sizes'),
 'C03': (VG, 'all inputs and sizes'),
 'C04': (VG, 'all inputs'),
 'C05': (VG, 'all inputs'),
 'C06': (VG, 'all inputs; derivation paths of every length'),
 'C07': (VG, 'all inputs; derivation paths of every length'),
 'C08': (VG, 'all inputs and sizes'),
 'C09': (VG, 'all inputs and sizes'),
 'C10': (VG, 'all inputs; creation at every size, acceptance at small thresholds and recipient sets'),
 'C11': (VG, 'all inputs and sizes'),
 'C12': (VG, 'all inputs; sizes as listed'),
 'C37': (VG, 'all inputs and sizes'),
 'C38': (VG, 'all inputs'),
 'C13': (VG, 'all inputs and sizes'),
 'C14': (VG, 'all inputs and sizes'),
 'C15': (VG, 'all inputs and sizes'),
 'C16': (VG, 'all inputs and sizes'),
 'C17': (VG, 'all inputs and sizes'),
 'C18': (VG, 'all inputs and sizes'),
 'C20': (VG, 'all inputs and sizes'),
 'C21': (VG, 'all inputs; message expansion at listed lengths'),
 'C24': (VG, 'all inputs and sizes'),
 'C25': (VG, 'all inputs; sizes as noted'),
 'C26': (VG, 'all inputs and sizes'),
 'C27': (VG, 'all inputs; byte lengths as noted'),
 'C28': (VG, 'all inputs; byte lengths as noted'),
 'C29': (VG, 'all inputs; byte lengths as noted'),
 'C30': (VG, 'all inputs'),
 'C31': (VG.replace('comparison of the library with specification functions', 'comparison of the memory reachable from arguments before and after every exported operation'), 'all exported operations, all inputs'),
 'C32': (VG, 'all inputs and sizes'),
 'C35': (VG + '; structural check of every return', 'all inputs; all integer kinds, all types the library converts to an interface'),
 'C36': (VG, 'all inputs'),
 'C19': ('abstract interpretation: hash separators and seed labels collected at the hash primitive per operation and compared with the documented purposes', 'all operations with a specification or documented separators'),
 'C22': ('static effect analysis over SSA (ambient inputs, goroutines, package-level state, map iteration order) and comparison of package-level memory before and after every exported operation by abstract interpretation', 'all library functions; all exported operations and laws, all inputs'),
 'C23': (VG, 'all inputs and sizes'),
 'C34': ('static forward taint analysis over SSA with function summaries: secrets must not reach text output', 'all library functions, all interprocedural flows within the library'),
 'C41': (VG, 'all inputs; dealings at thresholds 1 and 2, complaints against one and two dealers'),
}
NA = {
 'C39': 'timing is a property of the compiled code and of the native field arithmetic of a dependency; no static argument over this source in reach bounds it (table lookups, big.Int conversions and scalar-dependent loops are inherited from the dependency)',
 'C40': 'a probabilistic indistinguishability statement about ChaCha20 output and rejection sampling; the functional part (which bytes become which scalar) is C23',
}
