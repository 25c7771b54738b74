-------------------------------- MODULE Chance --------------------------------
(* Pseudo-random choices: the i-th of the numbers that belong to seed k.        *)
EXTENDS Integers, Sequences

Mix(x) == LET a == (x * 31 + 7) % 65521
              b == (a * 17389) % 65521
          IN (b * 28411 + 12345) % 65521
\* from 1 to n
Draw(k, i, n) == 1 + (Mix((Mix((k * 131 + i) % 65521) + 7 * i + (k \div 499)) % 65521) % n)
OneIn(k, i, n) == Draw(k, i, n) = 1
OneOf(k, i, s) == s[Draw(k, i, Len(s))]
=============================================================================
