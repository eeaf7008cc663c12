------------------------------ MODULE Settings ------------------------------
(* What a value of TAGGED_BOX_RESERVED_WIDTH stands for *)
WidthOf(s) ==
    CASE s = "48bits" -> 48 [] s = "49bits" -> 49 [] s = "50bits" -> 50 [] s = "51bits" -> 51
      [] s = "52bits" -> 52 [] s = "53bits" -> 53 [] s = "54bits" -> 54 [] s = "55bits" -> 55
      [] s = "56bits" -> 56 [] s = "57bits" -> 57 [] s = "58bits" -> 58 [] s = "59bits" -> 59
      [] s = "60bits" -> 60 [] s = "61bits" -> 61 [] s = "62bits" -> 62 [] s = "63bits" -> 63
      [] OTHER -> 60    \* unset and everything unrecognised
=============================================================================
