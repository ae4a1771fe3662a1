from registry import prop, na, STATIC_NOTE
F = ['src/share/poly.rs']
GRP = 'Scalar and point arithmetic are taken as a field and a module over it (the G properties); that they are implemented correctly is not decided here. '


def p(id, title, st, over, qt, why, mech, rule, note='', floor=1):
    prop(id, title, st, over, qt, why, F, mech, 'poly', rule, STATIC_NOTE + GRP + note, floor=floor)


p('P01', 'Recovery interpolates exactly the given shares, and only from enough',
  'Recovering a secret, a commitment or a whole polynomial from shares computes the Lagrange interpolation through exactly the points (index + 1, value) of shares that are present in the list, at zero or as a polynomial respectively. '
  'A result is returned only if shares with at least threshold many distinct indices took part; a whole polynomial only from exactly threshold many; shares are left out only once the threshold is reached.',
  ['inputs'], 'all lists of shares, with gaps, in any order, of any number of participants', 'tests recover from one or two subsets of one random polynomial',
  [('interpolation', 'recover_secret, recover_commit, recover_pri_poly, recover_pub_poly, xy_scalar, xy_commit, lagrange_basis')],
  'The loops building the result are summarised (start value, contribution of one iteration, iterations that contribute nothing) and the contribution is compared, as a rational function of the x coordinates, with the Lagrange basis; the ranges of the loops are compared with the whole share map.', floor=11)
p('P02', 'Shares are evaluations of the polynomial at index plus one',
  'Evaluating a private or public polynomial at an index gives the share with that index and the sum of all coefficients (commitments) times the powers of index + 1; the list of n shares holds the evaluations at 0..n, in order. '
  'The threshold is the number of coefficients, the secret (the public commitment to it) the constant term; committing multiplies every coefficient, in order, with the base point and keeps group and base. '
  'A share is called consistent with a public polynomial exactly if the commitment evaluated at its index equals its value times the base point.',
  ['inputs'], 'all polynomials, indices and shares', 'tests evaluate a few random polynomials',
  [('evaluation', 'PriPoly::eval, PubPoly::eval, shares'), ('commitment', 'PriPoly::commit, PubPoly::check')],
  'The evaluation loop is recognised as Horner\'s rule or a running power by comparing one iteration as a polynomial expression, its range with the coefficient list, and its direction; the check is compared as a linear form over points.',
  'Index arithmetic at the limits of usize is not decided.', floor=12)
p('P03', 'Polynomial sums, products and comparisons cover every coefficient',
  'Adding polynomials is refused unless group and number of coefficients agree, and adds them coefficient by coefficient; the product has one coefficient less than both together and sums a[i]*b[j] into position i+j for every pair. '
  'Comparing yields true only if groups, lengths and the encodings of every pair of coefficients agree, and false only if one of them differs.',
  ['inputs'], 'all pairs of polynomials', 'tests use a few random polynomials of equal degree',
  [('arithmetic', 'PriPoly::add, PubPoly::add, PriPoly::mul'), ('comparison', 'PriPoly::equal, PubPoly::equal')],
  'One iteration of each loop is compared with the coefficient-wise sum, the convolution or the comparison; iterations that contribute nothing and early ends are reported.', floor=12)
p('P04', 'New polynomials take the given secret and draw every other coefficient',
  'A new private polynomial has exactly threshold many coefficients: the constant term is the given secret if there is one and otherwise drawn from the given stream, and every other coefficient is drawn from the stream for itself alone. '
  'The digest of a share covers its value and its index.',
  ['inputs'], 'all thresholds, secrets and streams', 'tests check recovery for a fixed threshold',
  [('drawing', 'new_pri_poly'), ('digest', 'PriShare::hash, PubShare::hash')],
  'The coefficient list is summarised: its start under the facts on the option, the contribution of one iteration (a draw whose stream state changes from iteration to iteration) and the number of iterations.',
  'A threshold of zero, which yields a polynomial with only the constant term, is not decided.', floor=6)
