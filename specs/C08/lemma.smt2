; D mod I = 0 and D > 0 imply D >= I and (D - I) mod I = 0
(declare-const D Int)
(declare-const I Int)
(declare-const q Int)
(assert (> I 0))
(assert (> D 0))
(assert (= D (* q I)))
(assert (or (< D I) (not (= (- D I) (* (- q 1) I))) (< (- q 1) 0)))
(check-sat)
