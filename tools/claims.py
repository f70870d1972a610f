for _i in ("C06","C07","C08","C09","C10"):
    C[_i]=(GRAM,"")
for _i in ("C02","C04","C05","I01","I02"):
    C[_i]=(GRAM,"")
for _i in ("X01","X02","M03","M04","M05"):
    C[_i]=(GRAM,"")
for _i in ("Q01","P01","S01","G01","G02","G03","K01","K02"):
    C[_i]=(GRAM,"")
C["N01"]=(GRAM,"")
DIFF="The documents of the diffs are finite: every pair of attribute variants, key distributions, column and table sets of the listed sizes, with texts left open; longer lists are covered only as far as the code treats elements alike."
C["L01"]=(GRAM,"")
for _i in ("D01","D02","D03","D04","D05"):
    C[_i]=(GRAM,DIFF)
C["C01"]=(GRAM,"")
C["T01"]=(GRAM,"")
