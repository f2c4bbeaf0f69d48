"""Reports of every kind, to be built one after another."""

SOME = [["metar", "METAR SEQM 071130Z AUTO 18015G25KT 150V210 4000 1500SE R07L/0800U -RA BR SCT012 BKN040CB 12/M01 Q1012 "
         "RETS WS R07 W12/S4 R07/290055 XXXX TEMPO FM1200 27010KT 2000 +SHRA FG FEW008 OVC020 YYYY RMK A1", 2022, 3],
        ["taf", "TAF AMD SEQM 071130Z 0712/0812 18015G25KT 4000 -RA BR SCT012 BKN040CB TX12/0715Z TNM01/0806Z XXXX "
         "TEMPO 0714/0716 27020KT 2000 TSRA BKN006 FM072000 09005KT CAVOK", 2022, 3],
        ["metar", "METAR SEQM 071130Z", 2022, 3], ["taf", "TAF SEQM 071130Z NIL", 2022, 3], ["taf", "TAF", 2022, 3],
        ["metar", "SPECI", 2024, 2],
        ["taf", "TAF COR SEQM 071130Z NIL", 2022, 3], ["taf", "TAF AMD SEQM 071130Z NIL", 2022, 3],
        ["taf", "TAF COR SEQM 071130Z 0712/0812 CNL", 2022, 3],
        ["taf", "TAF COR SEQM 081730Z 0818/0924 00000KT P6SM VV001 TXM00/0918Z PROB30 TEMPO 0820/0822 VRB05G15MPS 0050 FG "
         "FM090000 33010KT NSW NSC BECMG 0906/0908 9999 FEW000TCU ZZZZ", 2023, 12],
        ["metar", "SPECI COR SEQM 272300Z VRB02MPS CAVOK M00/M05 A2992 NOSIG", 2024, 2],
        ["metar", "METAR SEQM 012400Z NIL", 2024, 2],
        ["metar", "METAR SEQM 311200Z 00000KT 350V010 1 1/2SM R09/P1500FTU R88/M0050 +TSRAGR VCFG FZRA VV/// OVC000CB M00/M00 "
         "3005 REFG WS ALL RWY WM02/H015 R24/CLRD// WWWW NOSIG TEMPO AT1330 VRB03KT BECMG FM1400 TL1500 NSW", 2021, 1]]
