(set-logic QF_BVFP)
(declare-const n (_ BitVec 64))
(define-fun f () Float64 ((_ to_fp 11 53) RNE n))
(define-fun c () Float64 (fp.roundToIntegral RTP (fp.div RNE f ((_ to_fp 11 53) RNE 16.0))))
(define-fun r () (_ BitVec 64) ((_ fp.to_sbv 64) RTZ c))
(assert (bvsle #x0000000000000000 n))
(assert (bvsle n #x0020000000000000))
(assert (not (= r (bvlshr (bvadd n #x000000000000000f) #x0000000000000004))))
(check-sat)
