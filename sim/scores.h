// Written by tools/mkscores.py.
#pragma once
static const char SC_CJK[] =
	"0-7F=4 3000-303F=4 3040-309F=5 30A0-30FF=5 3100-312F=4 3400-4DB5=3 4E00-6FFF=5 7000-9FA5=4 9FA6-9FBB=3 AC00-D7AF=3 F900-FA2D=4 FA30-FA6A=4 "
	"FA70-FAD9=2 FF00-FFEF=3 20000-2A6D6=1 2F800-2FA1D=1 "
	"";
static const char SC_LATIN1[] =
	"0-80=2 82-8C=2 8E-8E=2 91-9C=2 9E-FF=2 "
	"";
static const char SC_ZH_BONUS[] =
	"0123=1 013639=2 010233B4=4 01C5=5 01FC=5 014E24=1 015179=1 0152B9=1 0153F7=1 015553=1 0163F8=1 016B74=1 "
	"0170DF=1 01714A=1 0171DF=1 017371=1 01743C=1 017468=1 017740=1 017793=1 01781C=1 0178B1=1 01793C=1 017962=1 "
	"017AEA=2 017DAB=1 017EDF=1 0183D3=1 0184AD=1 01885E=1 0189A7=1 0189C6=1 018D4E=1 018D77=1 018E2A=1 018E46=1 "
	"018EAD=1 018FF9=1 0190A8=2 0190D1=2 0190FD=1 019176=3 0194C3=1 0194CA=1 01976D=1 019938=2 019A90=1 019DC4=1 "
	"019E37=1 019FA5=1 "
	"";
static const char SC_ZH_BONUS_PHRASE[] =
	"0163.01FA=6 01E9.0163=6 01C9.0163=6 01E9.0164=6 01C9.0164=6 01E9.0172=6 01C9.0172=6 0170.01E9=6 0173.01E9=6 014E00.0196D9=6 014E00.015687=6 014E00.016735=6 "
	"014E00.017D71=6 014E0B.015EDA=6 015169.017684=6 015169.014EBA=6 015169.01500B=6 015169.0153E5=6 014E2D.019A5B=6 018209.015DF5=6 014E59.019170=6 014F55.016CC1=6 014F60.0154CB=6 015088.015088=6 "
	"015165.015EDA=6 015168.016E2F=6 015192.017159=6 016CC1.014E14=6 0151B7.01975C=6 0151D3.016DBC=6 0152AB.016A5F=6 0152AB.0196E3=6 015287.015834=6 0152D5.014F5C=6 016548.01679C=6 016548.017528=6 "
	"0152D5.015834=6 0152DE.015DE5.016898=6 015348.01994D=6 015EDA.015E2B=6 015EDA.01623F=6 0153C3.0152A0=6 0153C3.017167=6 0153C3.018003=6 0153C3.018207=6 0153C3.018CFD=6 0196D9.015C0D=6 0196D9.01624B=6 "
	"016558.015229=6 0153F1.0154A4=6 015438.017159=6 01029433.015473=6 01547C.019FA5=6 0197FF.0161C9=6 015547.015834=6 01555F.017A0B=6 01556B.0155B1=6 0155BA.015514=6 0155BA.016709=6 015605.014F62=6 "
	"015668.016750=6 0156DE.0197FF=6 01570B.015CF0=6 01570D.017881=6 0157FA.015932=6 0157FA.019176=6 015875.0187CE=6 010212FE.015885=6 01590F.016128=6 015927.015EDA=6 015927.017159=6 015927.0181BD=6 "
	"015932.019762=6 015967.017955=6 015967.017FA9=6 015967.01904B=6 01597D.015622=6 015B8F.017881=6 015C4B.017E3D=6 015C4B.016751=6 015C55.017881=6 015CD1.017063=6 015E1D.015CF0=6 015E73.010275FD=6 "
	"015EE3.015834=6 015EFA.01714A=6 015EFA.017881=6 0160A3.018005=6 0160C5.016CC1=6 016210.016548=6 016210.0196D9=6 016247.016898=6 016253.0152AB=6 0162BD.017159=6 0164D4.014EFB=6 0162C9.0180A7=6 "
	"0162CD.015687=6 01639B.019264=6 0163A1.01945B=6 0163FE.015230=6 016436.0152AB=6 0164CD.015834=6 01653F.010219DB=6 016558.018FF0=6 016578.019FAB=6 0165E9.01994D=6 01665A.01994D=6 0166F8.0152B5=6 "
	"016708.01520B=6 016735.0182B1=6 0167A1.017530=6 0167A1.0191CE=6 016821.018B8E=6 016898.016DB2=6 01696D.016751=6 016B67.018996=6 016B77.017DF4=6 016BD2.0175B1=6 016C34.0157D7=6 016C34.017159=6 "
	"016C39.014ED4=6 016CB9.018534=6 016CE5.016898=6 016D77.0173A8=6 016DF7.0197F3.015668=6 01532F.018C50=6 016EFE.0152D5=6 01306E.017027=6 017027.01306E=6 01700F.0189BD=6 01706B.017210=6 01706B.0180CC.019DF4=6 "
	"017210.015FC3=6 017159.01706B=6 017159.0182B1=6 017159.019727=6 0172C0.016CC1=6 0172C2.0198C6=6 01734E.0152B5=6 017389.015DF5=6 017403.015834=6 0174E6.017AB0=6 01751A.019EBD=6 017528.01994D=6 "
	"017567.014F5C=6 0175B1.0175B9=6 017672.01764E=6 01767D.017159=6 017682.016898=6 0176EE.016A19.019176=6 01771F.018AE6=6 017793.015E73=6 017881.015CF0=6 0178DA.017AB0=6 017981.017159=6 0179AE.0152B5=6 "
	"0179FB.0152D5=6 017AB0.0171D2=6 017ACB.017881=6 017B62.015B50=6 017C97.0180A7=6 017CD6.0182F7=6 017CFB.017D71=6 017D20.0182F7=6 019FAB.017D30.0180DE=6 017D89.0182B1=6 017D93.016B77=6 019FAB.017DDA=6 "
	"017D93.016FDF=6 017D93.016FDF.015B78=6 017D71.014E00=6 017FFB.019801=6 018001.018005=6 018072.0197FF=6 0180A7.0180CE=6 0180A7.0182BD=6 0181BD.016562=6 0181BD.016A5F=6 018102.019176=6 01812B.019264=6 "
	"018150.0181B6=6 01817A.0182F7=6 0181B6.018178=6 0181C1.017621=6 0181C1.018095=6 0181C1.019AA8=6 0181EA.0152D5=6 0182B1.016735=6 0182F7.019178=6 0185E5.01929A=6 018471.0171D2=6 018480.018349=6 "
	"0185CD.018179.019DF3=6 0185CD.017530.01532F=6 01866F.019AEF=6 01885B.01751F=6 018863.016898=6 018B49.0152B5=6 018C6C.0181B6=6 018D64.019C72=6 018D6C.015C3E=6 018F14.019176=6 018F15.0163F8=6 018F33.018F33=6 "
	"018FB2.015834=6 019031.01520B=6 01904A.0189BD=6 019170.0180FA=6 019178.019176=6 0191D1.01945B=6 0191E3.019264=6 019264.015377=6 019264.015B50=6 0192B9.0183CC=6 019326.017D89=6 01932B.015803=6 "
	"01945B.015751=6 01945B.015834=6 01945B.015DE5=6 01945B.01696D=6 01929A.015B50=6 01929A.01671F=6 019577.018005=6 019593.019694=6 019676.015586=6 019676.017AB0=6 019694.019593=6 019130.018FD1=6 "
	"018B8E.015B9A=6 018B8E.016821=6 018B8E.01554F=6 019752.015E74=6 019752.016625=6 0197F3.0197FF=6 0198C6.015347=6 0198C6.018ECA=6 0198C6.0198A8=6 019952.015DF5=6 019999.016E2F=6 019B8B.015F62.0176EE=6 "
	"019B8B.019B5A=6 019C02.019B5A=6 019C1F.019B8D=6 019C20.019B5A=6 019D28.018137=6 019D7E.019CE5=6 0196DE.0181B6=6 019DF3.019D06=6 "
	"";
