"""Names of the false course head groups with the tenors together (a convention:
the letters and suffixes ringers use; 1 = in course, 2 = out of course)."""
FCH = {
  "A": "123456",
  "B1": "124365",
  "B2": "123654 125436 132456 143256",
  "C1": "125634",
  "C2": "134265 142365",
  "D1": "132546 146253",
  "D2": "124356 153426 163452",
  "E1": "132465 143265",
  "E2": "124635 125364",
  "F1": "132654 145236",
  "F2": "124563 126345",
  "G": "156423 163542",
  "H1": "153462 163425",
  "H2": "136542 146523 156243 162543",
  "I": "154632 165324",
  "K1": "153624 165432",
  "K2": "134526 146352 152346 164253",
  "K3": "154362 164325",
  "L1": "126543",
  "L2": "136245 142563",
  "M": "123564 126435 123645 125463",
  "N1": "134562 146325 154263 162345",
  "N2": "153264 162435 135462 143625",
  "N3": "152634 165234 135624 145632",
  "O1": "136524 146532 152643 165243",
  "O2": "153642 165423 156432 163524",
  "P1": "154326 164352",
  "P2": "156342 164523",
  "R": "135642 145623 156234 162534",
  "S": "134625 145362 152364 164235",
  "T1": "124536 126354 153246 162453 124653 125346 136452 143526",
  "T2": "132564 146235 132645 145263",
  "U1": "134256 135426 142356 143652 152436 163254",
  "U2": "135264 142635",
  "a1": "123465",
  "a2": "123546 126453",
  "b": "125643 126534",
  "c": "135246 136254 142536 142653",
  "d": "134652 145326 154236 162354",
  "e": "136425 143562 152463 163245",
  "f": "154623 165342 156324 164532",
}
