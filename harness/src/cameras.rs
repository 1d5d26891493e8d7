//! The published cameras: names and numbers they write, their identifiers
//! (with the names these have in the C header) and their calibration.
//! Written by tools/snapshot.py; reviewed against the header and dcraw.

/// (where, model, (vendor, camera), vendor name, camera name)
#[rustfmt::skip]
pub const MODELS: &[(&str, &str, (u16, u16), &str, &str)] = &[
    ("canon", "Canon EOS-1D", (1, 8), "CANON", "EOS_1D"),
    ("canon", "Canon EOS-1DS", (1, 11), "CANON", "EOS_1DS"),
    ("canon", "Canon EOS D30", (1, 15), "CANON", "EOS_D30"),
    ("canon", "Canon EOS D60", (1, 16), "CANON", "EOS_D60"),
    ("canon", "Canon EOS 10D", (1, 17), "CANON", "EOS_10D"),
    ("canon", "Canon EOS DIGITAL REBEL", (1, 14), "CANON", "DIGITAL_REBEL"),
    ("canon", "Canon EOS 300D DIGITAL", (1, 14), "CANON", "EOS_300D"),
    ("canon", "Canon PowerShot G1", (1, 19), "CANON", "G1"),
    ("canon", "Canon PowerShot G2", (1, 20), "CANON", "G2"),
    ("canon", "Canon PowerShot G3", (1, 21), "CANON", "G3"),
    ("canon", "Canon PowerShot G5", (1, 22), "CANON", "G5"),
    ("canon", "Canon PowerShot G6", (1, 23), "CANON", "G6"),
    ("canon", "Canon PowerShot Pro1", (1, 18), "CANON", "PRO1"),
    ("canon", "Canon PowerShot Pro70", (1, 110), "CANON", "PRO70"),
    ("canon", "Canon PowerShot Pro90 IS", (1, 111), "CANON", "PRO90"),
    ("canon", "Canon PowerShot S30", (1, 103), "CANON", "S30"),
    ("canon", "Canon PowerShot S40", (1, 104), "CANON", "S40"),
    ("canon", "Canon PowerShot S45", (1, 105), "CANON", "S45"),
    ("canon", "Canon PowerShot S50", (1, 106), "CANON", "S50"),
    ("canon", "Canon PowerShot S60", (1, 107), "CANON", "S60"),
    ("canon", "Canon PowerShot S70", (1, 108), "CANON", "S70"),
    ("canon", "Canon EOS-1D Mark II", (1, 9), "CANON", "EOS_1DMKII"),
    ("canon", "Canon EOS-1D Mark II N", (1, 91), "CANON", "EOS_1DMKIIN"),
    ("canon", "Canon EOS-1D Mark III", (1, 10), "CANON", "EOS_1DMKIII"),
    ("canon", "Canon EOS-1D Mark IV", (1, 30), "CANON", "EOS_1DMKIV"),
    ("canon", "Canon EOS-1Ds Mark II", (1, 12), "CANON", "EOS_1DSMKII"),
    ("canon", "Canon EOS-1Ds Mark III", (1, 13), "CANON", "EOS_1DSMKIII"),
    ("canon", "Canon EOS-1D X", (1, 45), "CANON", "EOS_1DX"),
    ("canon", "Canon EOS-1D X Mark II", (1, 71), "CANON", "EOS_1DXMKII"),
    ("canon", "Canon EOS 20D", (1, 1), "CANON", "EOS_20D"),
    ("canon", "Canon EOS 20Da", (1, 27), "CANON", "EOS_20DA"),
    ("canon", "Canon EOS 30D", (1, 2), "CANON", "EOS_30D"),
    ("canon", "Canon EOS 350D DIGITAL", (1, 4), "CANON", "EOS_350D"),
    ("canon", "Canon EOS DIGITAL REBEL XT", (1, 4), "CANON", "REBEL_XT"),
    ("canon", "Canon EOS Kiss Digital N", (1, 4), "CANON", "KISS_DIGITAL_N"),
    ("canon", "Canon EOS 40D", (1, 3), "CANON", "EOS_40D"),
    ("canon", "Canon EOS 400D DIGITAL", (1, 5), "CANON", "EOS_400D"),
    ("canon", "Canon EOS 450D", (1, 6), "CANON", "EOS_450D"),
    ("canon", "Canon EOS DIGITAL REBEL XSi", (1, 6), "CANON", "REBEL_XSI"),
    ("canon", "Canon EOS 50D", (1, 36), "CANON", "EOS_50D"),
    ("canon", "Canon EOS 500D", (1, 31), "CANON", "EOS_500D"),
    ("canon", "Canon EOS 550D", (1, 33), "CANON", "EOS_550D"),
    ("canon", "Canon EOS REBEL T2i", (1, 33), "CANON", "REBEL_T2I"),
    ("canon", "Canon EOS 600D", (1, 40), "CANON", "EOS_600D"),
    ("canon", "Canon EOS REBEL T3i", (1, 40), "CANON", "REBEL_T3I"),
    ("canon", "Canon EOS 60D", (1, 124), "CANON", "EOS_60D"),
    ("canon", "Canon EOS 650D", (1, 47), "CANON", "EOS_650D"),
    ("canon", "Canon EOS REBEL T4i", (1, 47), "CANON", "REBEL_T4I"),
    ("canon", "Canon EOS 70D", (1, 56), "CANON", "EOS_70D"),
    ("canon", "Canon EOS 700D", (1, 54), "CANON", "EOS_700D"),
    ("canon", "Canon EOS 750D", (1, 60), "CANON", "EOS_750D"),
    ("canon", "Canon EOS 760D", (1, 61), "CANON", "EOS_760D"),
    ("canon", "Canon EOS 80D", (1, 72), "CANON", "EOS_80D"),
    ("canon", "Canon EOS 800D", (1, 76), "CANON", "EOS_800D"),
    ("canon", "Canon EOS REBEL T1i", (1, 31), "CANON", "REBEL_T1I"),
    ("canon", "Canon EOS Rebel T5", (1, 73), "CANON", "REBEL_T5"),
    ("canon", "Canon EOS REBEL T5i", (1, 54), "CANON", "REBEL_T5I"),
    ("canon", "Canon EOS Rebel T6i", (1, 60), "CANON", "REBEL_T6I"),
    ("canon", "Canon EOS Rebel T6s", (1, 61), "CANON", "REBEL_T6S"),
    ("canon", "Canon EOS Rebel T6", (1, 69), "CANON", "REBEL_T6"),
    ("canon", "Canon EOS Rebel T7i", (1, 76), "CANON", "REBEL_T7I"),
    ("canon", "Canon EOS Rebel T7", (1, 88), "CANON", "REBEL_T7"),
    ("canon", "Canon EOS 1000D", (1, 34), "CANON", "EOS_1000D"),
    ("canon", "Canon EOS 2000D", (1, 88), "CANON", "EOS_2000D"),
    ("canon", "Canon EOS DIGITAL REBEL XS", (1, 34), "CANON", "REBEL_XS"),
    ("canon", "Canon EOS 1100D", (1, 41), "CANON", "EOS_1100D"),
    ("canon", "Canon EOS 1200D", (1, 73), "CANON", "EOS_1200D"),
    ("canon", "Canon EOS 1300D", (1, 69), "CANON", "EOS_1300D"),
    ("canon", "Canon EOS REBEL T3", (1, 41), "CANON", "REBEL_T3"),
    ("canon", "Canon EOS 100D", (1, 53), "CANON", "EOS_100D"),
    ("canon", "Canon EOS REBEL SL1", (1, 53), "CANON", "REBEL_SL1"),
    ("canon", "Canon EOS 200D", (1, 81), "CANON", "EOS_200D"),
    ("canon", "Canon EOS Rebel SL2", (1, 81), "CANON", "REBEL_SL2"),
    ("canon", "Canon EOS 4000D", (1, 90), "CANON", "EOS_4000D"),
    ("canon", "Canon EOS 5D", (1, 7), "CANON", "EOS_5D"),
    ("canon", "Canon EOS 5D Mark II", (1, 32), "CANON", "EOS_5DMKII"),
    ("canon", "Canon EOS 5D Mark III", (1, 44), "CANON", "EOS_5DMKIII"),
    ("canon", "Canon EOS 5D Mark IV", (1, 65), "CANON", "EOS_5DMKIV"),
    ("canon", "Canon EOS 5DS", (1, 83), "CANON", "EOS_5DS"),
    ("canon", "Canon EOS 5DS R", (1, 62), "CANON", "EOS_5DS_R"),
    ("canon", "Canon EOS 6D", (1, 49), "CANON", "EOS_6D"),
    ("canon", "Canon EOS 6D Mark II", (1, 80), "CANON", "EOS_6DMKII"),
    ("canon", "Canon EOS 7D", (1, 28), "CANON", "EOS_7D"),
    ("canon", "Canon EOS 7D Mark II", (1, 57), "CANON", "EOS_7DMKII"),
    ("canon", "Canon EOS 77D", (1, 77), "CANON", "EOS_77D"),
    ("canon", "Canon EOS Kiss X3", (1, 31), "CANON", "KISS_X3"),
    ("canon", "Canon EOS M", (1, 50), "CANON", "EOS_M"),
    ("canon", "Canon EOS M10", (1, 75), "CANON", "EOS_M10"),
    ("canon", "Canon EOS M100", (1, 79), "CANON", "EOS_M100"),
    ("canon", "Canon EOS M2", (1, 113), "CANON", "EOS_M2"),
    ("canon", "Canon EOS M3", (1, 70), "CANON", "EOS_M3"),
    ("canon", "Canon EOS M5", (1, 66), "CANON", "EOS_M5"),
    ("canon", "Canon EOS M6", (1, 78), "CANON", "EOS_M6"),
    ("canon", "Canon PowerShot G9", (1, 25), "CANON", "G9"),
    ("canon", "Canon PowerShot G10", (1, 35), "CANON", "G10"),
    ("canon", "Canon PowerShot G11", (1, 29), "CANON", "G11"),
    ("canon", "Canon PowerShot G12", (1, 38), "CANON", "G12"),
    ("canon", "Canon PowerShot G15", (1, 48), "CANON", "G15"),
    ("canon", "Canon PowerShot G16", (1, 55), "CANON", "G16"),
    ("canon", "Canon PowerShot G1 X", (1, 42), "CANON", "G1X"),
    ("canon", "Canon PowerShot G1 X Mark II", (1, 59), "CANON", "G1XMKII"),
    ("canon", "Canon PowerShot G1 X Mark III", (1, 82), "CANON", "G1XMKIII"),
    ("canon", "Canon PowerShot G3 X", (1, 63), "CANON", "G3X"),
    ("canon", "Canon PowerShot G5 X", (1, 67), "CANON", "G5X"),
    ("canon", "Canon PowerShot G7 X", (1, 58), "CANON", "G7X"),
    ("canon", "Canon PowerShot G7 X Mark II", (1, 68), "CANON", "G7XMKII"),
    ("canon", "Canon PowerShot G9 X", (1, 74), "CANON", "G9X"),
    ("canon", "Canon PowerShot G9 X Mark II", (1, 64), "CANON", "G9XMKII"),
    ("canon", "Canon PowerShot S90", (1, 37), "CANON", "S90"),
    ("canon", "Canon PowerShot S95", (1, 39), "CANON", "S95"),
    ("canon", "Canon PowerShot S100", (1, 43), "CANON", "S100"),
    ("canon", "Canon PowerShot S100V", (1, 109), "CANON", "S100V"),
    ("canon", "Canon PowerShot S110", (1, 52), "CANON", "S110"),
    ("canon", "Canon PowerShot S120", (1, 86), "CANON", "S120"),
    ("canon", "Canon PowerShot SX1 IS", (1, 85), "CANON", "SX1_IS"),
    ("canon", "Canon PowerShot SX50 HS", (1, 51), "CANON", "SX50_HS"),
    ("canon", "Canon PowerShot SX60 HS", (1, 87), "CANON", "SX60_HS"),
    ("canon", "Canon EOS M50", (1, 84), "CANON", "EOS_M50"),
    ("canon", "Canon EOS M50 Mark II", (1, 114), "CANON", "EOS_M50MKII"),
    ("canon", "Canon EOS M200", (1, 99), "CANON", "EOS_M200"),
    ("canon", "Canon EOS R", (1, 89), "CANON", "EOS_R"),
    ("canon", "Canon EOS RP", (1, 93), "CANON", "EOS_RP"),
    ("canon", "Canon EOS R3", (1, 115), "CANON", "EOS_R3"),
    ("canon", "Canon EOS R5", (1, 101), "CANON", "EOS_R5"),
    ("canon", "Canon EOS R6", (1, 102), "CANON", "EOS_R6"),
    ("canon", "Canon EOS R6 m2", (1, 118), "CANON", "EOS_R6MKII"),
    ("canon", "Canon EOS R7", (1, 116), "CANON", "EOS_R7"),
    ("canon", "Canon EOS R8", (1, 119), "CANON", "EOS_R8"),
    ("canon", "Canon EOS R10", (1, 117), "CANON", "EOS_R10"),
    ("canon", "Canon EOS R100", (1, 121), "CANON", "EOS_R100"),
    ("canon", "Canon EOS R50", (1, 120), "CANON", "EOS_R50"),
    ("canon", "Canon EOS 250D", (1, 94), "CANON", "EOS_250D"),
    ("canon", "Canon EOS Rebel SL3", (1, 94), "CANON", "EOS_250D"),
    ("canon", "Canon EOS 850D", (1, 112), "CANON", "EOS_850D"),
    ("canon", "Canon EOS Rebel T8i", (1, 112), "CANON", "EOS_850D"),
    ("canon", "Canon PowerShot SX70 HS", (1, 92), "CANON", "SX70_HS"),
    ("canon", "Canon PowerShot G5 X Mark II", (1, 96), "CANON", "G5XMKII"),
    ("canon", "Canon PowerShot G7 X Mark III", (1, 95), "CANON", "G7XMKIII"),
    ("canon", "Canon EOS-1D X Mark III", (1, 100), "CANON", "EOS_1DXMKIII"),
    ("canon", "Canon EOS M6 Mark II", (1, 97), "CANON", "EOS_M6MKII"),
    ("canon", "Canon EOS 90D", (1, 98), "CANON", "EOS_90D"),
    ("canon", "Canon EOS R1", (1, 123), "CANON", "EOS_R1"),
    ("canon", "Canon EOS R5m2", (1, 122), "CANON", "EOS_R5MKII"),
    ("nikon", "NIKON D1 ", (2, 2), "NIKON", "D1"),
    ("nikon", "NIKON D100 ", (2, 4), "NIKON", "D100"),
    ("nikon", "NIKON D1H", (2, 85), "NIKON", "D1H"),
    ("nikon", "NIKON D1X", (2, 3), "NIKON", "D1X"),
    ("nikon", "NIKON D200", (2, 7), "NIKON", "D200"),
    ("nikon", "NIKON D2H", (2, 5), "NIKON", "D2H"),
    ("nikon", "NIKON D2Hs", (2, 73), "NIKON", "D2HS"),
    ("nikon", "NIKON D2X", (2, 6), "NIKON", "D2X"),
    ("nikon", "NIKON D2Xs", (2, 74), "NIKON", "D2XS"),
    ("nikon", "NIKON D3", (2, 8), "NIKON", "D3"),
    ("nikon", "NIKON D3S", (2, 27), "NIKON", "D3S"),
    ("nikon", "NIKON D3X", (2, 28), "NIKON", "D3X"),
    ("nikon", "NIKON D300", (2, 9), "NIKON", "D300"),
    ("nikon", "NIKON D300S", (2, 29), "NIKON", "D300S"),
    ("nikon", "NIKON D3000", (2, 16), "NIKON", "D3000"),
    ("nikon", "NIKON D3100", (2, 20), "NIKON", "D3100"),
    ("nikon", "NIKON D3200", (2, 30), "NIKON", "D3200"),
    ("nikon", "NIKON D3300", (2, 56), "NIKON", "D3300"),
    ("nikon", "NIKON D3400", (2, 59), "NIKON", "D3400"),
    ("nikon", "NIKON D3500", (2, 72), "NIKON", "D3500"),
    ("nikon", "NIKON D4", (2, 26), "NIKON", "D4"),
    ("nikon", "NIKON D4S", (2, 48), "NIKON", "D4S"),
    ("nikon", "NIKON D40", (2, 10), "NIKON", "D40"),
    ("nikon", "NIKON D40X", (2, 11), "NIKON", "D40X"),
    ("nikon", "NIKON D5", (2, 60), "NIKON", "D5"),
    ("nikon", "NIKON D50", (2, 12), "NIKON", "D50"),
    ("nikon", "NIKON D500", (2, 61), "NIKON", "D500"),
    ("nikon", "NIKON D5000", (2, 24), "NIKON", "D5000"),
    ("nikon", "NIKON D5100", (2, 25), "NIKON", "D5100"),
    ("nikon", "NIKON D5200", (2, 38), "NIKON", "D5200"),
    ("nikon", "NIKON D5300", (2, 54), "NIKON", "D5300"),
    ("nikon", "NIKON D5500", (2, 55), "NIKON", "D5500"),
    ("nikon", "NIKON D5600", (2, 58), "NIKON", "D5600"),
    ("nikon", "NIKON D6", (2, 79), "NIKON", "D6"),
    ("nikon", "NIKON D60", (2, 44), "NIKON", "D60"),
    ("nikon", "NIKON D600", (2, 35), "NIKON", "D600"),
    ("nikon", "NIKON D610", (2, 49), "NIKON", "D610"),
    ("nikon", "NIKON D70", (2, 13), "NIKON", "D70"),
    ("nikon", "NIKON D70s", (2, 14), "NIKON", "D70S"),
    ("nikon", "NIKON D700", (2, 31), "NIKON", "D700"),
    ("nikon", "NIKON D7000", (2, 19), "NIKON", "D7000"),
    ("nikon", "NIKON D7100", (2, 39), "NIKON", "D7100"),
    ("nikon", "NIKON D7200", (2, 53), "NIKON", "D7200"),
    ("nikon", "NIKON D750", (2, 50), "NIKON", "D750"),
    ("nikon", "NIKON D7500", (2, 86), "NIKON", "D7500"),
    ("nikon", "NIKON D780", (2, 76), "NIKON", "D780"),
    ("nikon", "NIKON D80", (2, 15), "NIKON", "D80"),
    ("nikon", "NIKON D800", (2, 32), "NIKON", "D800"),
    ("nikon", "NIKON D800E", (2, 33), "NIKON", "D800E"),
    ("nikon", "NIKON D810", (2, 57), "NIKON", "D810"),
    ("nikon", "NIKON D850", (2, 87), "NIKON", "D850"),
    ("nikon", "NIKON D90", (2, 34), "NIKON", "D90"),
    ("nikon", "NIKON Df", (2, 45), "NIKON", "DF"),
    ("nikon", "NIKON Z 30", (2, 89), "NIKON", "Z30"),
    ("nikon", "NIKON Z 6", (2, 68), "NIKON", "Z6"),
    ("nikon", "NIKON Z 6_2", (2, 81), "NIKON", "Z6_2"),
    ("nikon", "NIKON Z6_3", (2, 92), "NIKON", "Z6_3"),
    ("nikon", "NIKON Z 7", (2, 69), "NIKON", "Z7"),
    ("nikon", "NIKON Z 7_2", (2, 82), "NIKON", "Z7_2"),
    ("nikon", "NIKON Z 50", (2, 77), "NIKON", "Z50"),
    ("nikon", "NIKON Z50_2", (2, 93), "NIKON", "Z50_2"),
    ("nikon", "NIKON Z 5", (2, 80), "NIKON", "Z5"),
    ("nikon", "NIKON Z 8", (2, 90), "NIKON", "Z8"),
    ("nikon", "NIKON Z 9", (2, 84), "NIKON", "Z9"),
    ("nikon", "NIKON Z fc", (2, 83), "NIKON", "ZFC"),
    ("nikon", "NIKON Z f", (2, 91), "NIKON", "ZF"),
    ("nikon", "E5400", (2, 46), "NIKON", "E5400"),
    ("nikon", "E5700", (2, 1), "NIKON", "E5700"),
    ("nikon", "E8400", (2, 47), "NIKON", "E8400"),
    ("nikon", "E8800", (2, 71), "NIKON", "E8800"),
    ("nikon", "COOLPIX B700", (2, 65), "NIKON", "COOLPIX_B700"),
    ("nikon", "COOLPIX P330", (2, 66), "NIKON", "COOLPIX_P330"),
    ("nikon", "COOLPIX P340", (2, 67), "NIKON", "COOLPIX_P340"),
    ("nikon", "COOLPIX P950", (2, 78), "NIKON", "COOLPIX_P950"),
    ("nikon", "COOLPIX P1000", (2, 70), "NIKON", "COOLPIX_P1000"),
    ("nikon", "COOLPIX P6000", (2, 17), "NIKON", "COOLPIX_P6000"),
    ("nikon", "COOLPIX P7000", (2, 18), "NIKON", "COOLPIX_P7000"),
    ("nikon", "COOLPIX P7100", (2, 23), "NIKON", "COOLPIX_P7100"),
    ("nikon", "COOLPIX P7700", (2, 36), "NIKON", "COOLPIX_P7700"),
    ("nikon", "COOLPIX P7800", (2, 88), "NIKON", "COOLPIX_P7800"),
    ("nikon", "COOLPIX A", (2, 40), "NIKON", "COOLPIX_A"),
    ("nikon", "COOLPIX A1000", (2, 75), "NIKON", "COOLPIX_A1000"),
    ("nikon", "NIKON 1 J1", (2, 21), "NIKON", "NIKON1_J1"),
    ("nikon", "NIKON 1 J2", (2, 41), "NIKON", "NIKON1_J2"),
    ("nikon", "NIKON 1 J3", (2, 42), "NIKON", "NIKON1_J3"),
    ("nikon", "NIKON 1 J4", (2, 64), "NIKON", "NIKON1_J4"),
    ("nikon", "NIKON 1 J5", (2, 51), "NIKON", "NIKON1_J5"),
    ("nikon", "NIKON 1 V1", (2, 22), "NIKON", "NIKON1_V1"),
    ("nikon", "NIKON 1 V2", (2, 37), "NIKON", "NIKON1_V2"),
    ("nikon", "NIKON 1 V3", (2, 52), "NIKON", "NIKON1_V3"),
    ("nikon", "NIKON 1 S1", (2, 43), "NIKON", "NIKON1_S1"),
    ("nikon", "NIKON 1 S2", (2, 63), "NIKON", "NIKON1_S2"),
    ("nikon", "NIKON 1 AW1", (2, 62), "NIKON", "NIKON1_AW1"),
    ("fujifilm", "GFX 50S", (14, 44), "FUJIFILM", "GFX50S"),
    ("fujifilm", "GFX50S II", (14, 58), "FUJIFILM", "GFX50S_II"),
    ("fujifilm", "GFX 50R", (14, 45), "FUJIFILM", "GFX50R"),
    ("fujifilm", "GFX 100", (14, 48), "FUJIFILM", "GFX100"),
    ("fujifilm", "GFX100 II", (14, 70), "FUJIFILM", "GFX100_II"),
    ("fujifilm", "GFX100S", (14, 59), "FUJIFILM", "GFX100S"),
    ("fujifilm", "GFX100RF", (14, 73), "FUJIFILM", "GFX100RF"),
    ("fujifilm", "FinePix F550EXR", (14, 54), "FUJIFILM", "F550EXR"),
    ("fujifilm", "FinePix F700  ", (14, 1), "FUJIFILM", "F700"),
    ("fujifilm", "FinePix F810   ", (14, 6), "FUJIFILM", "F810"),
    ("fujifilm", "FinePix E900   ", (14, 2), "FUJIFILM", "E900"),
    ("fujifilm", "FinePixS2Pro", (14, 3), "FUJIFILM", "S2PRO"),
    ("fujifilm", "FinePix S3Pro  ", (14, 4), "FUJIFILM", "S3PRO"),
    ("fujifilm", "FinePix S5Pro  ", (14, 5), "FUJIFILM", "S5PRO"),
    ("fujifilm", "FinePix S5000 ", (14, 7), "FUJIFILM", "S5000"),
    ("fujifilm", "FinePix S5600  ", (14, 8), "FUJIFILM", "S5600"),
    ("fujifilm", "FinePix S6000fd", (14, 66), "FUJIFILM", "S6000FD"),
    ("fujifilm", "FinePix S6500fd", (14, 10), "FUJIFILM", "S6500FD"),
    ("fujifilm", "FinePix S9500  ", (14, 9), "FUJIFILM", "S9500"),
    ("fujifilm", "FinePix SL1000", (14, 67), "FUJIFILM", "SL1000"),
    ("fujifilm", "FinePix HS10 HS11", (14, 11), "FUJIFILM", "HS10"),
    ("fujifilm", "FinePix HS30EXR", (14, 12), "FUJIFILM", "HS30EXR"),
    ("fujifilm", "FinePix HS33EXR", (14, 12), "FUJIFILM", "HS33EXR"),
    ("fujifilm", "FinePix HS50EXR", (14, 65), "FUJIFILM", "HS50EXR"),
    ("fujifilm", "FinePix S100FS ", (14, 55), "FUJIFILM", "S100FS"),
    ("fujifilm", "FinePix S200EXR", (14, 13), "FUJIFILM", "S200EXR"),
    ("fujifilm", "FinePix X100", (14, 14), "FUJIFILM", "X100"),
    ("fujifilm", "X10", (14, 18), "FUJIFILM", "X10"),
    ("fujifilm", "X20", (14, 19), "FUJIFILM", "X20"),
    ("fujifilm", "X30", (14, 20), "FUJIFILM", "X30"),
    ("fujifilm", "X70", (14, 21), "FUJIFILM", "X70"),
    ("fujifilm", "X-Pro1", (14, 22), "FUJIFILM", "XPRO1"),
    ("fujifilm", "X-Pro2", (14, 23), "FUJIFILM", "XPRO2"),
    ("fujifilm", "X-Pro3", (14, 50), "FUJIFILM", "XPRO3"),
    ("fujifilm", "X-S1", (14, 24), "FUJIFILM", "XS1"),
    ("fujifilm", "X-S10", (14, 56), "FUJIFILM", "XS10"),
    ("fujifilm", "X-S20", (14, 68), "FUJIFILM", "XS20"),
    ("fujifilm", "X-A1", (14, 37), "FUJIFILM", "XA1"),
    ("fujifilm", "X-A10", (14, 61), "FUJIFILM", "XA10"),
    ("fujifilm", "X-A2", (14, 38), "FUJIFILM", "XA2"),
    ("fujifilm", "X-A3", (14, 39), "FUJIFILM", "XA3"),
    ("fujifilm", "X-A5", (14, 40), "FUJIFILM", "XA5"),
    ("fujifilm", "X-A7", (14, 49), "FUJIFILM", "XA7"),
    ("fujifilm", "XQ1", (14, 41), "FUJIFILM", "XQ1"),
    ("fujifilm", "XQ2", (14, 42), "FUJIFILM", "XQ2"),
    ("fujifilm", "X-E1", (14, 25), "FUJIFILM", "XE1"),
    ("fujifilm", "X-E2", (14, 26), "FUJIFILM", "XE2"),
    ("fujifilm", "X-E2S", (14, 27), "FUJIFILM", "XE2S"),
    ("fujifilm", "X-E3", (14, 28), "FUJIFILM", "XE3"),
    ("fujifilm", "X-E4", (14, 60), "FUJIFILM", "XE4"),
    ("fujifilm", "X-M1", (14, 30), "FUJIFILM", "XM1"),
    ("fujifilm", "X-M5", (14, 72), "FUJIFILM", "XM5"),
    ("fujifilm", "X-T1", (14, 31), "FUJIFILM", "XT1"),
    ("fujifilm", "X-T10", (14, 32), "FUJIFILM", "XT10"),
    ("fujifilm", "X-T100", (14, 33), "FUJIFILM", "XT100"),
    ("fujifilm", "X-T2", (14, 34), "FUJIFILM", "XT2"),
    ("fujifilm", "X-T20", (14, 35), "FUJIFILM", "XT20"),
    ("fujifilm", "X-T200", (14, 51), "FUJIFILM", "XT200"),
    ("fujifilm", "X-T3", (14, 36), "FUJIFILM", "XT3"),
    ("fujifilm", "X-T30", (14, 47), "FUJIFILM", "XT30"),
    ("fujifilm", "X-T30 II", (14, 57), "FUJIFILM", "XT30_II"),
    ("fujifilm", "X-T4", (14, 53), "FUJIFILM", "XT4"),
    ("fujifilm", "X-T5", (14, 64), "FUJIFILM", "XT5"),
    ("fujifilm", "X-T50", (14, 69), "FUJIFILM", "XT50"),
    ("fujifilm", "XF1", (14, 29), "FUJIFILM", "XF1"),
    ("fujifilm", "XF10", (14, 46), "FUJIFILM", "XF10"),
    ("fujifilm", "X100S", (14, 15), "FUJIFILM", "X100S"),
    ("fujifilm", "X100T", (14, 16), "FUJIFILM", "X100T"),
    ("fujifilm", "X100F", (14, 17), "FUJIFILM", "X100F"),
    ("fujifilm", "X100V", (14, 52), "FUJIFILM", "X100V"),
    ("fujifilm", "X100VI", (14, 71), "FUJIFILM", "X100VI"),
    ("fujifilm", "X-H1", (14, 43), "FUJIFILM", "XH1"),
    ("fujifilm", "X-H2", (14, 63), "FUJIFILM", "XH2"),
    ("fujifilm", "X-H2S", (14, 62), "FUJIFILM", "XH2S"),
    ("sony", "DSLR-A100", (8, 1), "SONY", "A100"),
    ("sony", "DSLR-A200", (8, 2), "SONY", "A200"),
    ("sony", "DSLR-A230", (8, 61), "SONY", "A230"),
    ("sony", "DSLR-A290", (8, 67), "SONY", "A290"),
    ("sony", "DSLR-A300", (8, 86), "SONY", "A300"),
    ("sony", "DSLR-A330", (8, 21), "SONY", "A330"),
    ("sony", "DSLR-A350", (8, 85), "SONY", "A350"),
    ("sony", "DSLR-A380", (8, 5), "SONY", "A380"),
    ("sony", "DSLR-A390", (8, 5), "SONY", "A390"),
    ("sony", "DSLR-A450", (8, 22), "SONY", "A450"),
    ("sony", "DSLR-A500", (8, 62), "SONY", "A500"),
    ("sony", "DSLR-A550", (8, 4), "SONY", "A550"),
    ("sony", "DSLR-A560", (8, 28), "SONY", "A560"),
    ("sony", "DSLR-A580", (8, 23), "SONY", "A580"),
    ("sony", "DSLR-A700", (8, 3), "SONY", "A700"),
    ("sony", "DSLR-A850", (8, 24), "SONY", "A850"),
    ("sony", "DSLR-A900", (8, 25), "SONY", "A900"),
    ("sony", "SLT-A33", (8, 27), "SONY", "SLTA33"),
    ("sony", "SLT-A35", (8, 26), "SONY", "SLTA35"),
    ("sony", "SLT-A37", (8, 63), "SONY", "SLTA37"),
    ("sony", "SLT-A55V", (8, 7), "SONY", "SLTA55"),
    ("sony", "SLT-A57", (8, 44), "SONY", "SLTA57"),
    ("sony", "SLT-A58", (8, 55), "SONY", "SLTA58"),
    ("sony", "SLT-A65V", (8, 19), "SONY", "SLTA65"),
    ("sony", "SLT-A77V", (8, 8), "SONY", "SLTA77"),
    ("sony", "SLT-A99V", (8, 29), "SONY", "SLTA99"),
    ("sony", "NEX-3", (8, 9), "SONY", "NEX3"),
    ("sony", "NEX-3N", (8, 10), "SONY", "NEX3N"),
    ("sony", "NEX-5", (8, 11), "SONY", "NEX5"),
    ("sony", "NEX-5N", (8, 12), "SONY", "NEX5N"),
    ("sony", "NEX-5R", (8, 13), "SONY", "NEX5R"),
    ("sony", "NEX-5T", (8, 14), "SONY", "NEX5T"),
    ("sony", "NEX-C3", (8, 17), "SONY", "NEXC3"),
    ("sony", "NEX-F3", (8, 18), "SONY", "NEXF3"),
    ("sony", "NEX-6", (8, 15), "SONY", "NEX6"),
    ("sony", "NEX-7", (8, 16), "SONY", "NEX7"),
    ("sony", "DSC-HX95", (8, 89), "SONY", "HX95"),
    ("sony", "DSC-HX99", (8, 69), "SONY", "HX99"),
    ("sony", "DSC-R1", (8, 78), "SONY", "R1"),
    ("sony", "DSC-RX10", (8, 38), "SONY", "RX10"),
    ("sony", "DSC-RX10M2", (8, 39), "SONY", "RX10M2"),
    ("sony", "DSC-RX10M3", (8, 40), "SONY", "RX10M3"),
    ("sony", "DSC-RX10M4", (8, 42), "SONY", "RX10M4"),
    ("sony", "DSC-RX100", (8, 30), "SONY", "RX100"),
    ("sony", "DSC-RX100M2", (8, 31), "SONY", "RX100M2"),
    ("sony", "DSC-RX100M3", (8, 32), "SONY", "RX100M3"),
    ("sony", "DSC-RX100M4", (8, 33), "SONY", "RX100M4"),
    ("sony", "DSC-RX100M5", (8, 34), "SONY", "RX100M5"),
    ("sony", "DSC-RX100M5A", (8, 68), "SONY", "RX100M5A"),
    ("sony", "DSC-RX100M6", (8, 35), "SONY", "RX100M6"),
    ("sony", "DSC-RX100M7", (8, 73), "SONY", "RX100M7"),
    ("sony", "DSC-RX0", (8, 43), "SONY", "RX0"),
    ("sony", "DSC-RX0M2", (8, 71), "SONY", "RX0M2"),
    ("sony", "DSC-RX1", (8, 36), "SONY", "RX1"),
    ("sony", "DSC-RX1R", (8, 37), "SONY", "RX1R"),
    ("sony", "DSC-RX1RM2", (8, 41), "SONY", "RX1RM2"),
    ("sony", "ILCA-68", (8, 65), "SONY", "ILCA68"),
    ("sony", "ILCA-77M2", (8, 64), "SONY", "ILCA77M2"),
    ("sony", "ILCA-99M2", (8, 57), "SONY", "ILCA99M2"),
    ("sony", "ILCE-1", (8, 82), "SONY", "ILCE1"),
    ("sony", "ILCE-1M2", (8, 98), "SONY", "ILCE1M2"),
    ("sony", "ILCE-3000", (8, 54), "SONY", "ILCE3000"),
    ("sony", "ILCE-3500", (8, 54), "SONY", "ILCE3500"),
    ("sony", "ILCE-5000", (8, 66), "SONY", "ILCE5000"),
    ("sony", "ILCE-5100", (8, 60), "SONY", "ILCE5100"),
    ("sony", "ILCE-6000", (8, 56), "SONY", "ILCE6000"),
    ("sony", "ILCE-6100", (8, 74), "SONY", "ILCE6100"),
    ("sony", "ILCE-6300", (8, 58), "SONY", "ILCE6300"),
    ("sony", "ILCE-6400", (8, 70), "SONY", "ILCE6400"),
    ("sony", "ILCE-6500", (8, 59), "SONY", "ILCE6500"),
    ("sony", "ILCE-6600", (8, 75), "SONY", "ILCE6600"),
    ("sony", "ILCE-6700", (8, 93), "SONY", "ILCE6700"),
    ("sony", "ILCE-7", (8, 45), "SONY", "ILCE7"),
    ("sony", "ILCE-7C", (8, 80), "SONY", "ILCE7C"),
    ("sony", "ILCE-7M2", (8, 46), "SONY", "ILCE7M2"),
    ("sony", "ILCE-7M3", (8, 47), "SONY", "ILCE7M3"),
    ("sony", "ILCE-7M4", (8, 83), "SONY", "ILCE7M4"),
    ("sony", "ILCE-7R", (8, 48), "SONY", "ILCE7R"),
    ("sony", "ILCE-7RM2", (8, 49), "SONY", "ILCE7RM2"),
    ("sony", "ILCE-7RM3", (8, 50), "SONY", "ILCE7RM3"),
    ("sony", "ILCE-7RM3A", (8, 87), "SONY", "ILCE7RM3A"),
    ("sony", "ILCE-7RM4", (8, 72), "SONY", "ILCE7RM4"),
    ("sony", "ILCE-7RM4A", (8, 88), "SONY", "ILCE7RM4A"),
    ("sony", "ILCE-7RM5", (8, 90), "SONY", "ILCE7RM5"),
    ("sony", "ILCE-7S", (8, 51), "SONY", "ILCE7S"),
    ("sony", "ILCE-7SM2", (8, 52), "SONY", "ILCE7SM2"),
    ("sony", "ILCE-7SM3", (8, 79), "SONY", "ILCE7SM3"),
    ("sony", "ILCE-9", (8, 53), "SONY", "ILCE9"),
    ("sony", "ILCE-9M2", (8, 76), "SONY", "ILCE9M2"),
    ("sony", "ILCE-9M3", (8, 96), "SONY", "ILCE9M3"),
    ("sony", "ILME-FX3", (8, 95), "SONY", "ILME_FX3"),
    ("sony", "ILME-FX30", (8, 92), "SONY", "ILME_FX30"),
    ("sony", "ZV-1", (8, 77), "SONY", "ZV1"),
    ("sony", "ZV-1M2", (8, 94), "SONY", "ZV1M2"),
    ("sony", "ZV-E1", (8, 91), "SONY", "ZVE1"),
    ("sony", "ZV-E10", (8, 81), "SONY", "ZVE10"),
    ("sony", "ZV-E10M2", (8, 97), "SONY", "ZVE10M2"),
    ("sony", "UMC-R10C", (8, 84), "SONY", "UMCR10C"),
    ("sony", "Lunar", (20, 1), "HASSELBLAD", "LUNAR"),
    ("olympus", "E-1             ", (7, 1), "OLYMPUS", "E1"),
    ("olympus", "E-10        ", (7, 2), "OLYMPUS", "E10"),
    ("olympus", "E-3             ", (7, 3), "OLYMPUS", "E3"),
    ("olympus", "E-30            ", (7, 54), "OLYMPUS", "E30"),
    ("olympus", "E-5             ", (7, 19), "OLYMPUS", "E5"),
    ("olympus", "E-300           ", (7, 4), "OLYMPUS", "E300"),
    ("olympus", "E-330           ", (7, 5), "OLYMPUS", "E330"),
    ("olympus", "E-400           ", (7, 6), "OLYMPUS", "E400"),
    ("olympus", "E-410           ", (7, 7), "OLYMPUS", "E410"),
    ("olympus", "E-420           ", (7, 56), "OLYMPUS", "E420"),
    ("olympus", "E-450           ", (7, 57), "OLYMPUS", "E450"),
    ("olympus", "E-500           ", (7, 8), "OLYMPUS", "E500"),
    ("olympus", "E-510           ", (7, 9), "OLYMPUS", "E510"),
    ("olympus", "E-520           ", (7, 58), "OLYMPUS", "E520"),
    ("olympus", "E-600           ", (7, 59), "OLYMPUS", "E600"),
    ("olympus", "E-620           ", (7, 15), "OLYMPUS", "E620"),
    ("olympus", "SP350", (7, 10), "OLYMPUS", "SP350"),
    ("olympus", "SP500UZ", (7, 13), "OLYMPUS", "SP500UZ"),
    ("olympus", "SP510UZ", (7, 11), "OLYMPUS", "SP510UZ"),
    ("olympus", "SP550UZ                ", (7, 12), "OLYMPUS", "SP550UZ"),
    ("olympus", "SP565UZ                ", (7, 48), "OLYMPUS", "SP565UZ"),
    ("olympus", "SP570UZ                ", (7, 61), "OLYMPUS", "SP570UZ"),
    ("olympus", "E-P1            ", (7, 14), "OLYMPUS", "EP1"),
    ("olympus", "E-P2            ", (7, 17), "OLYMPUS", "EP2"),
    ("olympus", "E-P3            ", (7, 21), "OLYMPUS", "EP3"),
    ("olympus", "E-P5            ", (7, 55), "OLYMPUS", "EP5"),
    ("olympus", "E-P7            ", (7, 62), "OLYMPUS", "EP7"),
    ("olympus", "E-PL1           ", (7, 16), "OLYMPUS", "EPL1"),
    ("olympus", "E-PL2           ", (7, 20), "OLYMPUS", "EPL2"),
    ("olympus", "E-PL3           ", (7, 22), "OLYMPUS", "EPL3"),
    ("olympus", "E-PL5           ", (7, 27), "OLYMPUS", "EPL5"),
    ("olympus", "E-PL6           ", (7, 30), "OLYMPUS", "EPL6"),
    ("olympus", "E-PL7           ", (7, 31), "OLYMPUS", "EPL7"),
    ("olympus", "E-PL8           ", (7, 37), "OLYMPUS", "EPL8"),
    ("olympus", "E-PL9           ", (7, 41), "OLYMPUS", "EPL9"),
    ("olympus", "E-PL10          ", (7, 49), "OLYMPUS", "EPL10"),
    ("olympus", "E-PM1           ", (7, 23), "OLYMPUS", "EPM1"),
    ("olympus", "E-PM2           ", (7, 26), "OLYMPUS", "EPM2"),
    ("olympus", "XZ-1            ", (7, 18), "OLYMPUS", "XZ1"),
    ("olympus", "XZ-10           ", (7, 39), "OLYMPUS", "XZ10"),
    ("olympus", "XZ-2            ", (7, 25), "OLYMPUS", "XZ2"),
    ("olympus", "E-M5            ", (7, 24), "OLYMPUS", "EM5"),
    ("olympus", "E-M5MarkII      ", (7, 32), "OLYMPUS", "EM5II"),
    ("olympus", "E-M5MarkIII     ", (7, 47), "OLYMPUS", "EM5III"),
    ("olympus", "E-M1            ", (7, 28), "OLYMPUS", "EM1"),
    ("olympus", "E-M1MarkII      ", (7, 33), "OLYMPUS", "EM1II"),
    ("olympus", "E-M1MarkIII     ", (7, 50), "OLYMPUS", "EM1III"),
    ("olympus", "E-M1X           ", (7, 45), "OLYMPUS", "EM1X"),
    ("olympus", "E-M10           ", (7, 35), "OLYMPUS", "EM10"),
    ("olympus", "E-M10MarkII     ", (7, 36), "OLYMPUS", "EM10II"),
    ("olympus", "E-M10 Mark III  ", (7, 43), "OLYMPUS", "EM10III"),
    ("olympus", "E-M10MarkIIIS   ", (7, 52), "OLYMPUS", "EM10IIIS"),
    ("olympus", "E-M10MarkIV     ", (7, 51), "OLYMPUS", "EM10IV"),
    ("olympus", "OM-1            ", (7, 53), "OLYMPUS", "OM1"),
    ("olympus", "OM-1MarkII      ", (7, 65), "OLYMPUS", "OM1II"),
    ("olympus", "OM-3            ", (7, 66), "OLYMPUS", "OM3"),
    ("olympus", "OM-5            ", (7, 63), "OLYMPUS", "OM5"),
    ("olympus", "STYLUS1         ", (7, 29), "OLYMPUS", "STYLUS1"),
    ("olympus", "STYLUS1,1s      ", (7, 42), "OLYMPUS", "STYLUS1_1S"),
    ("olympus", "PEN-F           ", (7, 34), "OLYMPUS", "PEN_F"),
    ("olympus", "SH-2            ", (7, 38), "OLYMPUS", "SH2"),
    ("olympus", "TG-4            ", (7, 40), "OLYMPUS", "TG4"),
    ("olympus", "TG-5            ", (7, 44), "OLYMPUS", "TG5"),
    ("olympus", "TG-6            ", (7, 46), "OLYMPUS", "TG6"),
    ("olympus", "TG-7            ", (7, 64), "OLYMPUS", "TG7"),
    ("olympus", "C5060WZ", (7, 60), "OLYMPUS", "C5060WZ"),
    ("panasonic", "DMC-CM1", (11, 47), "PANASONIC", "CM1"),
    ("panasonic", "DMC-GF1", (11, 1), "PANASONIC", "GF1"),
    ("panasonic", "DMC-GF2", (11, 2), "PANASONIC", "GF2"),
    ("panasonic", "DMC-GF3", (11, 18), "PANASONIC", "GF3"),
    ("panasonic", "DMC-GF5", (11, 23), "PANASONIC", "GF5"),
    ("panasonic", "DMC-GF6", (11, 27), "PANASONIC", "GF6"),
    ("panasonic", "DMC-GF7", (11, 46), "PANASONIC", "GF7"),
    ("panasonic", "DMC-GF8", (11, 85), "PANASONIC", "GF8"),
    ("panasonic", "DC-GF10", (11, 68), "PANASONIC", "GF10"),
    ("panasonic", "DMC-GX1", (11, 20), "PANASONIC", "GX1"),
    ("panasonic", "DMC-GX7", (11, 28), "PANASONIC", "GX7"),
    ("panasonic", "DMC-GX7MK2", (11, 59), "PANASONIC", "GX7MK2"),
    ("panasonic", "DC-GX7MK3", (11, 48), "PANASONIC", "GX7MK3"),
    ("panasonic", "DMC-GX8", (11, 36), "PANASONIC", "GX8"),
    ("panasonic", "DMC-GX80", (11, 38), "PANASONIC", "GX80"),
    ("panasonic", "DMC-GX85", (11, 38), "PANASONIC", "GX85"),
    ("panasonic", "DC-GX800", (11, 49), "PANASONIC", "GX800"),
    ("panasonic", "DC-GX850", (11, 40), "PANASONIC", "GX850"),
    ("panasonic", "DC-GX880", (11, 68), "PANASONIC", "GX880"),
    ("panasonic", "DC-GX9", (11, 48), "PANASONIC", "GX9"),
    ("panasonic", "DMC-FX150", (11, 89), "PANASONIC", "FX150"),
    ("panasonic", "DMC-FZ8", (11, 10), "PANASONIC", "FZ8"),
    ("panasonic", "DMC-FZ1000", (11, 65), "PANASONIC", "DMC_FZ1000"),
    ("panasonic", "DC-FZ10002", (11, 66), "PANASONIC", "DC_FZ1000M2"),
    ("panasonic", "DC-FZ1000M2", (11, 66), "PANASONIC", "DC_FZ1000M2"),
    ("panasonic", "DMC-FZ18", (11, 11), "PANASONIC", "FZ18"),
    ("panasonic", "DMC-FZ150", (11, 56), "PANASONIC", "FZ150"),
    ("panasonic", "DMC-FZ28", (11, 17), "PANASONIC", "FZ28"),
    ("panasonic", "DMC-FZ30", (11, 3), "PANASONIC", "FZ30"),
    ("panasonic", "DMC-FZ300", (11, 80), "PANASONIC", "FZ300"),
    ("panasonic", "DMC-FZ35", (11, 57), "PANASONIC", "FZ35"),
    ("panasonic", "DMC-FZ38", (11, 57), "PANASONIC", "FZ38"),
    ("panasonic", "DMC-FZ40", (11, 61), "PANASONIC", "DMC_FZ40"),
    ("panasonic", "DMC-FZ45", (11, 61), "PANASONIC", "DMC_FZ45"),
    ("panasonic", "DC-FZ45", (11, 53), "PANASONIC", "DC_FZ45"),
    ("panasonic", "DMC-FZ50", (11, 12), "PANASONIC", "FZ50"),
    ("panasonic", "DMC-FZ70", (11, 81), "PANASONIC", "FZ70"),
    ("panasonic", "DMC-FZ72", (11, 81), "PANASONIC", "FZ72"),
    ("panasonic", "DMC-FZ100", (11, 19), "PANASONIC", "FZ100"),
    ("panasonic", "DMC-FZ200", (11, 26), "PANASONIC", "FZ200"),
    ("panasonic", "DMC-FZ2500", (11, 35), "PANASONIC", "FZ2500"),
    ("panasonic", "DMC-FZ2000", (11, 35), "PANASONIC", "FZ2000"),
    ("panasonic", "DMC-FZ330", (11, 42), "PANASONIC", "FZ330"),
    ("panasonic", "DC-FZ80", (11, 41), "PANASONIC", "FZ80"),
    ("panasonic", "DC-FZ82", (11, 41), "PANASONIC", "FZ82"),
    ("panasonic", "DMC-G1", (11, 14), "PANASONIC", "G1"),
    ("panasonic", "DMC-G2", (11, 15), "PANASONIC", "G2"),
    ("panasonic", "DMC-G3", (11, 21), "PANASONIC", "G3"),
    ("panasonic", "DMC-G5", (11, 22), "PANASONIC", "G5"),
    ("panasonic", "DMC-G6", (11, 77), "PANASONIC", "G6"),
    ("panasonic", "DMC-G7", (11, 75), "PANASONIC", "G7"),
    ("panasonic", "DMC-G70", (11, 75), "PANASONIC", "G70"),
    ("panasonic", "DMC-G10", (11, 4), "PANASONIC", "G10"),
    ("panasonic", "DMC-G80", (11, 33), "PANASONIC", "G80"),
    ("panasonic", "DMC-G81", (11, 78), "PANASONIC", "G81"),
    ("panasonic", "DC-G9", (11, 52), "PANASONIC", "G9"),
    ("panasonic", "DC-G9M2", (11, 88), "PANASONIC", "G9M2"),
    ("panasonic", "DC-G90", (11, 69), "PANASONIC", "DC_G90"),
    ("panasonic", "DC-G91", (11, 69), "PANASONIC", "DC_G91"),
    ("panasonic", "DC-G95", (11, 64), "PANASONIC", "DC_G95"),
    ("panasonic", "DC-G95D", (11, 69), "PANASONIC", "DC_G95D"),
    ("panasonic", "DC-G99", (11, 69), "PANASONIC", "DC_G99"),
    ("panasonic", "DC-G100", (11, 71), "PANASONIC", "DC_G100"),
    ("panasonic", "DC-G100D", (11, 90), "PANASONIC", "DC_G100D"),
    ("panasonic", "DC-G110", (11, 71), "PANASONIC", "DC_G110"),
    ("panasonic", "DMC-GH1", (11, 5), "PANASONIC", "GH1"),
    ("panasonic", "DMC-GH2", (11, 6), "PANASONIC", "GH2"),
    ("panasonic", "DMC-GH3", (11, 25), "PANASONIC", "GH3"),
    ("panasonic", "DMC-GH4", (11, 30), "PANASONIC", "GH4"),
    ("panasonic", "DC-GH5", (11, 39), "PANASONIC", "GH5"),
    ("panasonic", "DC-GH5S", (11, 54), "PANASONIC", "GH5S"),
    ("panasonic", "DC-GH5M2", (11, 73), "PANASONIC", "GH5M2"),
    ("panasonic", "DC-GH6", (11, 74), "PANASONIC", "GH6"),
    ("panasonic", "DC-GH7", (11, 91), "PANASONIC", "GH7"),
    ("panasonic", "DMC-GM1", (11, 29), "PANASONIC", "GM1"),
    ("panasonic", "DMC-GM1S", (11, 29), "PANASONIC", "GM1S"),
    ("panasonic", "DMC-GM5", (11, 32), "PANASONIC", "GM5"),
    ("panasonic", "DMC-LF1", (11, 79), "PANASONIC", "LF1"),
    ("panasonic", "DMC-LX1", (11, 55), "PANASONIC", "LX1"),
    ("panasonic", "DMC-LX2", (11, 7), "PANASONIC", "LX2"),
    ("panasonic", "DMC-LX3", (11, 8), "PANASONIC", "LX3"),
    ("panasonic", "DMC-LX5", (11, 9), "PANASONIC", "LX5"),
    ("panasonic", "DMC-LX7", (11, 24), "PANASONIC", "LX7"),
    ("panasonic", "DMC-LX10", (11, 34), "PANASONIC", "LX10"),
    ("panasonic", "DMC-LX15", (11, 34), "PANASONIC", "LX15"),
    ("panasonic", "DMC-LX100", (11, 31), "PANASONIC", "LX100"),
    ("panasonic", "DC-LX100M2", (11, 60), "PANASONIC", "LX100M2"),
    ("panasonic", "DMC-L1", (11, 13), "PANASONIC", "L1"),
    ("panasonic", "DMC-L10", (11, 16), "PANASONIC", "L10"),
    ("panasonic", "DC-S1", (11, 62), "PANASONIC", "DC_S1"),
    ("panasonic", "DC-S1R", (11, 63), "PANASONIC", "DC_S1R"),
    ("panasonic", "DC-S1RM2", (11, 92), "PANASONIC", "DC_S1RM2"),
    ("panasonic", "DC-S1H", (11, 70), "PANASONIC", "DC_S1H"),
    ("panasonic", "DC-S5", (11, 72), "PANASONIC", "DC_S5"),
    ("panasonic", "DC-S5M2", (11, 84), "PANASONIC", "DC_S5M2"),
    ("panasonic", "DC-S5M2X", (11, 86), "PANASONIC", "DC_S5M2X"),
    ("panasonic", "DC-S9", (11, 87), "PANASONIC", "DC_S9"),
    ("panasonic", "DMC-TZ70", (11, 43), "PANASONIC", "TZ70"),
    ("panasonic", "DMC-ZS60", (11, 44), "PANASONIC", "ZS60"),
    ("panasonic", "DMC-TZ80", (11, 44), "PANASONIC", "TZ80"),
    ("panasonic", "DMC-TZ81", (11, 44), "PANASONIC", "TZ81"),
    ("panasonic", "DMC-ZS100", (11, 37), "PANASONIC", "ZS100"),
    ("panasonic", "DMC-TX1", (11, 37), "PANASONIC", "TX1"),
    ("panasonic", "DMC-TZ100", (11, 37), "PANASONIC", "TZ100"),
    ("panasonic", "DMC-TZ101", (11, 37), "PANASONIC", "TZ101"),
    ("panasonic", "DMC-TZ110", (11, 37), "PANASONIC", "TZ110"),
    ("panasonic", "DC-ZS200", (11, 58), "PANASONIC", "ZS200"),
    ("panasonic", "DC-TZ202", (11, 58), "PANASONIC", "TZ202"),
    ("panasonic", "DC-ZS80", (11, 67), "PANASONIC", "DC_ZS80"),
    ("panasonic", "DC-ZS200D", (11, 58), "PANASONIC", "ZS200D"),
    ("panasonic", "DC-TZ95", (11, 67), "PANASONIC", "DC_TZ95"),
    ("panasonic", "DC-TZ96", (11, 67), "PANASONIC", "DC_TZ96"),
    ("panasonic", "DMC-ZS40", (11, 76), "PANASONIC", "ZS40"),
    ("panasonic", "DMC-TZ60", (11, 76), "PANASONIC", "TZ60"),
    ("panasonic", "DMC-TZ61", (11, 76), "PANASONIC", "TZ61"),
    ("panasonic", "DMC-TZ71", (11, 82), "PANASONIC", "TZ71"),
    ("panasonic", "DMC-TZ90", (11, 83), "PANASONIC", "TZ90"),
    ("panasonic", "DIGILUX 2", (3, 4), "LEICA", "DIGILUX2"),
    ("panasonic", "DIGILUX 3", (3, 39), "LEICA", "DIGILUX3"),
    ("panasonic", "D-LUX 3", (3, 5), "LEICA", "DLUX_3"),
    ("panasonic", "D-LUX 4", (3, 35), "LEICA", "DLUX_4"),
    ("panasonic", "D-LUX 5", (3, 26), "LEICA", "DLUX_5"),
    ("panasonic", "D-LUX 6", (3, 40), "LEICA", "DLUX_6"),
    ("panasonic", "D-Lux 7", (3, 27), "LEICA", "DLUX_7"),
    ("panasonic", "V-LUX 1", (3, 6), "LEICA", "VLUX_1"),
    ("panasonic", "D-LUX (Typ 109)", (3, 18), "LEICA", "DLUX_TYP109"),
    ("panasonic", "V-LUX 4", (3, 19), "LEICA", "VLUX_4"),
    ("panasonic", "V-Lux 5", (3, 29), "LEICA", "VLUX_5"),
    ("panasonic", "V-LUX (Typ 114)", (3, 21), "LEICA", "VLUX_TYP114"),
    ("panasonic", "C-Lux", (3, 22), "LEICA", "CLUX"),
    ("panasonic", "C (Typ 112)", (3, 28), "LEICA", "C_TYP112"),
    ("pentax", "PENTAX *ist D      ", (4, 3), "PENTAX", "IST_D_PEF"),
    ("pentax", "PENTAX *ist DL     ", (4, 4), "PENTAX", "IST_DL_PEF"),
    ("pentax", "PENTAX *ist DL2    ", (4, 48), "PENTAX", "IST_DL2_PEF"),
    ("pentax", "PENTAX *ist DS     ", (4, 30), "PENTAX", "IST_DS_PEF"),
    ("pentax", "PENTAX K10D        ", (4, 1), "PENTAX", "K10D_PEF"),
    ("pentax", "PENTAX K100D       ", (4, 5), "PENTAX", "K100D_PEF"),
    ("pentax", "PENTAX K100D Super ", (4, 6), "PENTAX", "K100D_SUPER_PEF"),
    ("pentax", "PENTAX K110D       ", (4, 53), "PENTAX", "K110D_PEF"),
    ("pentax", "PENTAX K20D        ", (4, 7), "PENTAX", "K20D_PEF"),
    ("pentax", "PENTAX K200D       ", (4, 29), "PENTAX", "K200D_PEF"),
    ("pentax", "PENTAX K2000       ", (4, 56), "PENTAX", "K2000_PEF"),
    ("pentax", "PENTAX K-1         ", (4, 33), "PENTAX", "K1_PEF"),
    ("pentax", "PENTAX K-1 Mark II ", (4, 45), "PENTAX", "K1_MKII_PEF"),
    ("pentax", "PENTAX K-r         ", (4, 8), "PENTAX", "KR_PEF"),
    ("pentax", "PENTAX K-3         ", (4, 51), "PENTAX", "K3_PEF"),
    ("pentax", "PENTAX K-3 II      ", (4, 52), "PENTAX", "K3_II_PEF"),
    ("pentax", "PENTAX K-3 Mark III             ", (4, 54), "PENTAX", "K3_MKIII_PEF"),
    ("pentax", "PENTAX K-5         ", (4, 10), "PENTAX", "K5_PEF"),
    ("pentax", "PENTAX K-5 II      ", (4, 49), "PENTAX", "K5_II_PEF"),
    ("pentax", "PENTAX K-5 II s    ", (4, 31), "PENTAX", "K5_IIS_PEF"),
    ("pentax", "PENTAX K-7         ", (4, 11), "PENTAX", "K7_PEF"),
    ("pentax", "PENTAX K-70        ", (4, 35), "PENTAX", "K70_PEF"),
    ("pentax", "PENTAX K-S1        ", (4, 37), "PENTAX", "KS1_PEF"),
    ("pentax", "PENTAX K-S2        ", (4, 39), "PENTAX", "KS2_PEF"),
    ("pentax", "PENTAX K-m         ", (4, 17), "PENTAX", "KM_PEF"),
    ("pentax", "PENTAX K-x         ", (4, 9), "PENTAX", "KX_PEF"),
    ("pentax", "PENTAX KP          ", (4, 43), "PENTAX", "KP_PEF"),
    ("pentax", "PENTAX 645D        ", (4, 12), "PENTAX", "PENTAX_645D_PEF"),
    ("pentax", "PENTAX 645Z        ", (10, 6), "RICOH", "PENTAX_645Z_PEF"),
    ("epson", "R-D1", (5, 1), "EPSON", "RD1"),
    ("epson", "R-D1s", (5, 2), "EPSON", "RD1S"),
    ("epson", "R-D1x", (5, 3), "EPSON", "RD1X"),
    ("dng", "PENTAX 645Z        ", (10, 7), "RICOH", "PENTAX_645Z_DNG"),
    ("dng", "PENTAX 645D        ", (4, 13), "PENTAX", "PENTAX_645D_DNG"),
    ("dng", "PENTAX K10D        ", (4, 2), "PENTAX", "K10D_DNG"),
    ("dng", "PENTAX K20D        ", (4, 58), "PENTAX", "K20D_DNG"),
    ("dng", "PENTAX Q           ", (4, 15), "PENTAX", "Q_DNG"),
    ("dng", "PENTAX K200D       ", (4, 16), "PENTAX", "K200D_DNG"),
    ("dng", "PENTAX K2000       ", (4, 14), "PENTAX", "K2000_DNG"),
    ("dng", "PENTAX Q10         ", (4, 24), "PENTAX", "Q10_DNG"),
    ("dng", "PENTAX Q7          ", (4, 25), "PENTAX", "Q7_DNG"),
    ("dng", "PENTAX Q-S1        ", (4, 41), "PENTAX", "QS1_DNG"),
    ("dng", "PENTAX K-x         ", (4, 18), "PENTAX", "KX_DNG"),
    ("dng", "PENTAX K-r         ", (4, 19), "PENTAX", "KR_DNG"),
    ("dng", "PENTAX K-01        ", (4, 20), "PENTAX", "K01_DNG"),
    ("dng", "PENTAX K-1         ", (4, 34), "PENTAX", "K1_DNG"),
    ("dng", "PENTAX K-1 Mark II ", (4, 46), "PENTAX", "K1_MKII_DNG"),
    ("dng", "PENTAX K10D        ", (4, 2), "PENTAX", "K10D_DNG"),
    ("dng", "PENTAX K-30        ", (4, 21), "PENTAX", "K30_DNG"),
    ("dng", "PENTAX K-5         ", (4, 57), "PENTAX", "K5_DNG"),
    ("dng", "PENTAX K-5 II      ", (4, 50), "PENTAX", "K5_II_DNG"),
    ("dng", "PENTAX K-5 II s    ", (4, 22), "PENTAX", "K5_IIS_DNG"),
    ("dng", "PENTAX K-50        ", (4, 27), "PENTAX", "K50_DNG"),
    ("dng", "PENTAX K-500       ", (4, 28), "PENTAX", "K500_DNG"),
    ("dng", "PENTAX K-3         ", (4, 26), "PENTAX", "K3_DNG"),
    ("dng", "PENTAX K-3 II      ", (4, 32), "PENTAX", "K3_II_DNG"),
    ("dng", "PENTAX K-3 Mark III             ", (4, 55), "PENTAX", "K3_MKIII_DNG"),
    ("dng", "PENTAX K-3 Mark III Monochrome                                  ", (4, 59), "PENTAX", "K3_MKIII_MONO_DNG"),
    ("dng", "PENTAX K-7         ", (4, 47), "PENTAX", "K7_DNG"),
    ("dng", "PENTAX K-70        ", (4, 36), "PENTAX", "K70_DNG"),
    ("dng", "PENTAX K-S1        ", (4, 38), "PENTAX", "KS1_DNG"),
    ("dng", "PENTAX K-S2        ", (4, 40), "PENTAX", "KS2_DNG"),
    ("dng", "PENTAX KP          ", (4, 44), "PENTAX", "KP_DNG"),
    ("dng", "PENTAX MX-1            ", (4, 23), "PENTAX", "MX1_DNG"),
    ("dng", "R9 - Digital Back DMR", (3, 1), "LEICA", "DMR"),
    ("dng", "M8 Digital Camera", (3, 2), "LEICA", "M8"),
    ("dng", "M9 Digital Camera", (3, 7), "LEICA", "M9"),
    ("dng", "M Monochrom", (3, 9), "LEICA", "M_MONOCHROM"),
    ("dng", "LEICA D-Lux 8", (3, 44), "LEICA", "DLUX_8"),
    ("dng", "LEICA M (Typ 240)", (3, 11), "LEICA", "M_TYP240"),
    ("dng", "LEICA M MONOCHROM (Typ 246)", (3, 34), "LEICA", "M_MONOCHROM_TYP246"),
    ("dng", "LEICA M10", (3, 16), "LEICA", "M10"),
    ("dng", "LEICA M10-P", (3, 23), "LEICA", "M10P"),
    ("dng", "LEICA M10-D", (3, 24), "LEICA", "M10D"),
    ("dng", "LEICA M10-R", (3, 33), "LEICA", "M10R"),
    ("dng", "LEICA M10 MONOCHROM", (3, 32), "LEICA", "M10_MONOCHROM"),
    ("dng", "LEICA M11", (3, 38), "LEICA", "M11"),
    ("dng", "LEICA M11 Monochrom", (3, 41), "LEICA", "M11_MONOCHROM"),
    ("dng", "LEICA X1               ", (3, 3), "LEICA", "X1"),
    ("dng", "LEICA X2", (3, 10), "LEICA", "X2"),
    ("dng", "Leica S2", (3, 8), "LEICA", "S2"),
    ("dng", "LEICA X VARIO (Typ 107)", (3, 12), "LEICA", "X_VARIO"),
    ("dng", "LEICA X (Typ 113)", (3, 15), "LEICA", "X_TYP113"),
    ("dng", "LEICA SL (Typ 601)", (3, 17), "LEICA", "SL_TYP601"),
    ("dng", "LEICA SL2", (3, 31), "LEICA", "SL2"),
    ("dng", "LEICA SL3", (3, 43), "LEICA", "SL3"),
    ("dng", "LEICA T (Typ 701)", (3, 13), "LEICA", "T_TYP701"),
    ("dng", "LEICA TL2", (3, 25), "LEICA", "TL2"),
    ("dng", "LEICA Q (Typ 116)", (3, 14), "LEICA", "Q_TYP116"),
    ("dng", "LEICA Q2", (3, 30), "LEICA", "Q2"),
    ("dng", "LEICA Q3", (3, 42), "LEICA", "Q3"),
    ("dng", "LEICA Q3 43", (3, 45), "LEICA", "Q3_43"),
    ("dng", "LEICA CL", (3, 20), "LEICA", "CL"),
    ("dng", "LEICA SL2-S", (3, 36), "LEICA", "SL2S"),
    ("dng", "LEICA Q2 MONO", (3, 37), "LEICA", "Q2_MONOCHROM"),
    ("dng", "GR DIGITAL 2   ", (10, 1), "RICOH", "GR2"),
    ("dng", "GR                                                             ", (10, 4), "RICOH", "GR"),
    ("dng", "GR II                                                          ", (10, 8), "RICOH", "GRII"),
    ("dng", "RICOH GR III       ", (10, 9), "RICOH", "GRIII"),
    ("dng", "RICOH GR IIIx      ", (10, 10), "RICOH", "GRIIIX"),
    ("dng", "GXR            ", (10, 2), "RICOH", "GXR"),
    ("dng", "GXR A16                                                        ", (10, 3), "RICOH", "GXR_A16"),
    ("dng", "RICOH GX200    ", (10, 5), "RICOH", "GX200"),
    ("dng", "SAMSUNG GX10       ", (9, 1), "SAMSUNG", "GX10"),
    ("dng", "SAMSUNG GX20       ", (9, 3), "SAMSUNG", "GX20"),
    ("dng", "Pro 815    ", (9, 2), "SAMSUNG", "PRO815"),
    ("dng", "M1              ", (16, 1), "XIAOYI", "M1"),
    ("dng", "YDXJ 2", (16, 2), "XIAOYI", "YDXJ_2"),
    ("dng", "YIAC 3", (16, 3), "XIAOYI", "YIAC_3"),
    ("dng", "iPhone 6s Plus", (17, 1), "APPLE", "IPHONE_6SPLUS"),
    ("dng", "iPhone 7 Plus", (17, 2), "APPLE", "IPHONE_7PLUS"),
    ("dng", "iPhone 8", (17, 4), "APPLE", "IPHONE_8"),
    ("dng", "iPhone 12 Pro", (17, 6), "APPLE", "IPHONE_12_PRO"),
    ("dng", "iPhone 13 Pro", (17, 7), "APPLE", "IPHONE_13_PRO"),
    ("dng", "iPhone 14", (17, 8), "APPLE", "IPHONE_14"),
    ("dng", "iPhone 15 Pro", (17, 9), "APPLE", "IPHONE_15_PRO"),
    ("dng", "iPhone 15 Pro Max", (17, 10), "APPLE", "IPHONE_15_PRO_MAX"),
    ("dng", "iPhone SE", (17, 3), "APPLE", "IPHONE_SE"),
    ("dng", "iPhone XS", (17, 5), "APPLE", "IPHONE_XS"),
    ("dng", "Blackmagic Pocket Cinema Camera", (15, 1), "BLACKMAGIC", "POCKET_CINEMA"),
    ("dng", "SIGMA fp", (18, 1), "SIGMA", "FP"),
    ("dng", "SIGMA fp L", (18, 2), "SIGMA", "FP_L"),
    ("dng", "Sigma BF", (18, 3), "SIGMA", "BF"),
    ("dng", "L1D-20c", (20, 2), "HASSELBLAD", "L1D_20C"),
    ("dng", "L2D-20c", (20, 3), "HASSELBLAD", "L2D_20C"),
    ("dng", "FUSION", (19, 9), "GOPRO", "FUSION"),
    ("dng", "HERO5 Black", (19, 1), "GOPRO", "HERO5_BLACK"),
    ("dng", "HERO6 Black", (19, 2), "GOPRO", "HERO6_BLACK"),
    ("dng", "HERO7 Black", (19, 3), "GOPRO", "HERO7_BLACK"),
    ("dng", "HERO8 Black", (19, 4), "GOPRO", "HERO8_BLACK"),
    ("dng", "HERO9 Black", (19, 5), "GOPRO", "HERO9_BLACK"),
    ("dng", "HERO10 Black", (19, 6), "GOPRO", "HERO10_BLACK"),
    ("dng", "HERO11 Black", (19, 7), "GOPRO", "HERO11_BLACK"),
    ("dng", "HERO12 Black", (19, 8), "GOPRO", "HERO12_BLACK"),
    ("dng", "ZX1", (21, 1), "ZEISS", "ZX1"),
    ("dng", "FC220", (22, 4), "DJI", "FC220"),
    ("dng", "FC350", (22, 1), "DJI", "FC350"),
    ("dng", "FC3582", (22, 6), "DJI", "FC3582"),
    ("dng", "FC6310", (22, 5), "DJI", "FC6310"),
    ("dng", "FC7303", (22, 2), "DJI", "FC7303"),
    ("dng", "FC4280", (22, 7), "DJI", "FC4280"),
    ("dng", "FC8284", (22, 8), "DJI", "FC8284"),
    ("dng", "DJI Osmo Action", (22, 3), "DJI", "OSMO_ACTION"),
    ("dng", "Lumia 1020", (23, 1), "NOKIA", "LUMIA_1020"),
    ("dng", "Pixel XL", (24, 1), "GOOGLE", "PIXEL_XL"),
    ("dng", "Pixel 2 XL", (24, 2), "GOOGLE", "PIXEL_2_XL"),
    ("dng", "Pixel 3a", (24, 3), "GOOGLE", "PIXEL_3A"),
    ("dng", "Pixel 3 XL", (24, 4), "GOOGLE", "PIXEL_3_XL"),
    ("dng", "Pixel 4a", (24, 5), "GOOGLE", "PIXEL_4A"),
    ("dng", "Pixel 4 XL", (24, 6), "GOOGLE", "PIXEL_4_XL"),
    ("dng", "Pixel 6 Pro", (24, 7), "GOOGLE", "PIXEL_6_PRO"),
    ("dng", "Pixel 7a", (24, 8), "GOOGLE", "PIXEL_7A"),
    ("dng", "Pixel 7 Pro", (24, 9), "GOOGLE", "PIXEL_7_PRO"),
    ("dng", "Pixel 8 Pro", (24, 10), "GOOGLE", "PIXEL_8_PRO"),
    ("dng", "Pixel 9 Pro", (24, 11), "GOOGLE", "PIXEL_9_PRO"),
    ("dng", "Seitz 6x17 Digital", (25, 1), "SEITZ", "ROUNDHSOT_D3"),
    ("dng", "SEALIFE DC2000", (26, 1), "SEALIFE", "DC2000"),
    ("dng", "PIXII (A1112)", (27, 1), "PIXII", "A1112"),
    ("dng", "Pixii Camera (A1571)", (27, 2), "PIXII", "A1571"),
    ("minolta", "21860002", (6, 7), "MINOLTA", "MAXXUM_5D"),
    ("minolta", "21810002", (6, 8), "MINOLTA", "MAXXUM_7D"),
    ("minolta", "27730001", (6, 3), "MINOLTA", "DIMAGE5"),
    ("minolta", "27660001", (6, 4), "MINOLTA", "DIMAGE7"),
    ("minolta", "27790001", (6, 5), "MINOLTA", "DIMAGE7I"),
    ("minolta", "27780001", (6, 6), "MINOLTA", "DIMAGE7HI"),
    ("minolta", "27820001", (6, 1), "MINOLTA", "A1"),
    ("minolta", "27200001", (6, 2), "MINOLTA", "A2"),
    ("minolta", "27470002", (6, 9), "MINOLTA", "A200"),
];

/// (where, number, (vendor, camera), vendor name, camera name)
#[rustfmt::skip]
pub const NUMBERS: &[(&str, u32, (u16, u16), &str, &str)] = &[
    ("canon", 0x01100000, (1, 20), "CANON", "G2"),
    ("canon", 0x01110000, (1, 104), "CANON", "S40"),
    ("canon", 0x01120000, (1, 103), "CANON", "S30"),
    ("canon", 0x01140000, (1, 15), "CANON", "EOS_D30"),
    ("canon", 0x01190000, (1, 21), "CANON", "G3"),
    ("canon", 0x01210000, (1, 105), "CANON", "S45"),
    ("canon", 0x01290000, (1, 22), "CANON", "G5"),
    ("canon", 0x01310000, (1, 106), "CANON", "S50"),
    ("canon", 0x01370000, (1, 18), "CANON", "PRO1"),
    ("canon", 0x01380000, (1, 108), "CANON", "S70"),
    ("canon", 0x01390000, (1, 107), "CANON", "S60"),
    ("canon", 0x01400000, (1, 23), "CANON", "G6"),
    ("canon", 0x01668000, (1, 16), "CANON", "EOS_D60"),
    ("canon", 0x03010000, (1, 111), "CANON", "PRO90"),
    ("canon", 0x04040000, (1, 19), "CANON", "G1"),
    ("canon", 0x80000168, (1, 17), "CANON", "EOS_10D"),
    ("canon", 0x80000170, (1, 14), "CANON", "EOS_300D"),
    ("canon", 0x80000001, (1, 8), "CANON", "EOS_1D"),
    ("canon", 0x80000167, (1, 11), "CANON", "EOS_1DS"),
    ("canon", 0x80000174, (1, 9), "CANON", "EOS_1DMKII"),
    ("canon", 0x80000175, (1, 1), "CANON", "EOS_20D"),
    ("canon", 0x80000188, (1, 12), "CANON", "EOS_1DSMKII"),
    ("canon", 0x80000189, (1, 4), "CANON", "EOS_350D"),
    ("canon", 0x80000213, (1, 7), "CANON", "EOS_5D"),
    ("canon", 0x80000232, (1, 91), "CANON", "EOS_1DMKIIN"),
    ("canon", 0x80000234, (1, 2), "CANON", "EOS_30D"),
    ("canon", 0x80000236, (1, 5), "CANON", "EOS_400D"),
    ("canon", 0x80000169, (1, 10), "CANON", "EOS_1DMKIII"),
    ("canon", 0x80000190, (1, 3), "CANON", "EOS_40D"),
    ("canon", 0x80000215, (1, 13), "CANON", "EOS_1DSMKIII"),
    ("canon", 0x02230000, (1, 25), "CANON", "G9"),
    ("canon", 0x80000176, (1, 6), "CANON", "EOS_450D"),
    ("canon", 0x80000254, (1, 34), "CANON", "EOS_1000D"),
    ("canon", 0x80000261, (1, 36), "CANON", "EOS_50D"),
    ("canon", 0x02490000, (1, 35), "CANON", "G10"),
    ("canon", 0x80000218, (1, 32), "CANON", "EOS_5DMKII"),
    ("canon", 0x02460000, (1, 85), "CANON", "SX1_IS"),
    ("canon", 0x80000252, (1, 31), "CANON", "EOS_500D"),
    ("canon", 0x02700000, (1, 29), "CANON", "G11"),
    ("canon", 0x02720000, (1, 37), "CANON", "S90"),
    ("canon", 0x80000250, (1, 28), "CANON", "EOS_7D"),
    ("canon", 0x80000281, (1, 30), "CANON", "EOS_1DMKIV"),
    ("canon", 0x80000270, (1, 33), "CANON", "EOS_550D"),
    ("canon", 0x02950000, (1, 39), "CANON", "S95"),
    ("canon", 0x80000287, (1, 124), "CANON", "EOS_60D"),
    ("canon", 0x02920000, (1, 38), "CANON", "G12"),
    ("canon", 0x80000286, (1, 40), "CANON", "EOS_600D"),
    ("canon", 0x80000288, (1, 41), "CANON", "EOS_1100D"),
    ("canon", 0x03110000, (1, 43), "CANON", "S100"),
    ("canon", 0x80000269, (1, 45), "CANON", "EOS_1DX"),
    ("canon", 0x03080000, (1, 42), "CANON", "G1X"),
    ("canon", 0x80000285, (1, 44), "CANON", "EOS_5DMKIII"),
    ("canon", 0x80000301, (1, 47), "CANON", "EOS_650D"),
    ("canon", 0x80000331, (1, 50), "CANON", "EOS_M"),
    ("canon", 0x03320000, (1, 109), "CANON", "S100V"),
    ("canon", 0x03360000, (1, 52), "CANON", "S110"),
    ("canon", 0x03330000, (1, 48), "CANON", "G15"),
    ("canon", 0x03340000, (1, 51), "CANON", "SX50_HS"),
    ("canon", 0x80000302, (1, 49), "CANON", "EOS_6D"),
    ("canon", 0x80000326, (1, 54), "CANON", "EOS_700D"),
    ("canon", 0x80000346, (1, 53), "CANON", "EOS_100D"),
    ("canon", 0x80000325, (1, 56), "CANON", "EOS_70D"),
    ("canon", 0x03540000, (1, 55), "CANON", "G16"),
    ("canon", 0x03550000, (1, 86), "CANON", "S120"),
    ("canon", 0x80000355, (1, 113), "CANON", "EOS_M2"),
    ("canon", 0x80000327, (1, 73), "CANON", "EOS_1200D"),
    ("canon", 0x03640000, (1, 59), "CANON", "G1XMKII"),
    ("canon", 0x80000289, (1, 57), "CANON", "EOS_7DMKII"),
    ("canon", 0x03780000, (1, 58), "CANON", "G7X"),
    ("canon", 0x03750000, (1, 87), "CANON", "SX60_HS"),
    ("canon", 0x80000382, (1, 83), "CANON", "EOS_5DS"),
    ("canon", 0x80000401, (1, 62), "CANON", "EOS_5DS_R"),
    ("canon", 0x80000393, (1, 60), "CANON", "EOS_750D"),
    ("canon", 0x80000347, (1, 61), "CANON", "EOS_760D"),
    ("canon", 0x03740000, (1, 70), "CANON", "EOS_M3"),
    ("canon", 0x03850000, (1, 63), "CANON", "G3X"),
    ("canon", 0x03950000, (1, 67), "CANON", "G5X"),
    ("canon", 0x03930000, (1, 74), "CANON", "G9X"),
    ("canon", 0x03840000, (1, 75), "CANON", "EOS_M10"),
    ("canon", 0x80000328, (1, 71), "CANON", "EOS_1DXMKII"),
    ("canon", 0x80000350, (1, 72), "CANON", "EOS_80D"),
    ("canon", 0x03970000, (1, 68), "CANON", "G7XMKII"),
    ("canon", 0x80000404, (1, 69), "CANON", "EOS_1300D"),
    ("canon", 0x80000349, (1, 65), "CANON", "EOS_5DMKIV"),
    ("canon", 0x03940000, (1, 66), "CANON", "EOS_M5"),
    ("canon", 0x04100000, (1, 64), "CANON", "G9XMKII"),
    ("canon", 0x80000405, (1, 76), "CANON", "EOS_800D"),
    ("canon", 0x80000408, (1, 77), "CANON", "EOS_77D"),
    ("canon", 0x04070000, (1, 78), "CANON", "EOS_M6"),
    ("canon", 0x80000417, (1, 81), "CANON", "EOS_200D"),
    ("canon", 0x80000406, (1, 80), "CANON", "EOS_6DMKII"),
    ("canon", 0x03980000, (1, 79), "CANON", "EOS_M100"),
    ("canon", 0x04180000, (1, 82), "CANON", "G1XMKIII"),
    ("canon", 0x80000432, (1, 88), "CANON", "EOS_2000D"),
    ("canon", 0x80000422, (1, 90), "CANON", "EOS_3000D"),
    ("canon", 0x00000412, (1, 84), "CANON", "EOS_M50"),
    ("canon", 0x80000424, (1, 89), "CANON", "EOS_R"),
    ("canon", 0x80000433, (1, 93), "CANON", "EOS_RP"),
    ("canon", 0x80000421, (1, 101), "CANON", "EOS_R5"),
    ("canon", 0x80000453, (1, 102), "CANON", "EOS_R6"),
    ("canon", 0x80000436, (1, 94), "CANON", "EOS_250D"),
    ("canon", 0x00000804, (1, 96), "CANON", "G5XMKII"),
    ("canon", 0x00000805, (1, 92), "CANON", "SX70_HS"),
    ("canon", 0x00000808, (1, 95), "CANON", "G7XMKIII"),
    ("canon", 0x80000437, (1, 98), "CANON", "EOS_90D"),
    ("canon", 0x00000811, (1, 97), "CANON", "EOS_M6MKII"),
    ("canon", 0x00000812, (1, 99), "CANON", "EOS_M200"),
    ("canon", 0x80000428, (1, 100), "CANON", "EOS_1DXMKIII"),
    ("canon", 0x80000435, (1, 112), "CANON", "EOS_850D"),
    ("canon", 0x80000468, (1, 114), "CANON", "EOS_M50MKII"),
    ("canon", 0x80000450, (1, 115), "CANON", "EOS_R3"),
    ("canon", 0x80000464, (1, 116), "CANON", "EOS_R7"),
    ("canon", 0x80000465, (1, 117), "CANON", "EOS_R10"),
    ("canon", 0x80000480, (1, 120), "CANON", "EOS_R50"),
    ("canon", 0x80000481, (1, 118), "CANON", "EOS_R6MKII"),
    ("canon", 0x80000487, (1, 119), "CANON", "EOS_R8"),
    ("canon", 0x80000498, (1, 121), "CANON", "EOS_R100"),
    ("canon", 0x80000495, (1, 123), "CANON", "EOS_R1"),
    ("canon", 0x80000496, (1, 122), "CANON", "EOS_R5MKII"),
    ("sony", 2, (8, 78), "SONY", "R1"),
    ("sony", 256, (8, 1), "SONY", "A100"),
    ("sony", 257, (8, 25), "SONY", "A900"),
    ("sony", 258, (8, 3), "SONY", "A700"),
    ("sony", 259, (8, 2), "SONY", "A200"),
    ("sony", 260, (8, 85), "SONY", "A350"),
    ("sony", 261, (8, 86), "SONY", "A300"),
    ("sony", 263, (8, 5), "SONY", "A380"),
    ("sony", 263, (8, 5), "SONY", "A390"),
    ("sony", 264, (8, 21), "SONY", "A330"),
    ("sony", 265, (8, 61), "SONY", "A230"),
    ("sony", 266, (8, 67), "SONY", "A290"),
    ("sony", 269, (8, 24), "SONY", "A850"),
    ("sony", 273, (8, 4), "SONY", "A550"),
    ("sony", 274, (8, 62), "SONY", "A500"),
    ("sony", 275, (8, 22), "SONY", "A450"),
    ("sony", 278, (8, 11), "SONY", "NEX5"),
    ("sony", 279, (8, 9), "SONY", "NEX3"),
    ("sony", 280, (8, 27), "SONY", "SLTA33"),
    ("sony", 281, (8, 7), "SONY", "SLTA55"),
    ("sony", 282, (8, 28), "SONY", "A560"),
    ("sony", 283, (8, 23), "SONY", "A580"),
    ("sony", 284, (8, 17), "SONY", "NEXC3"),
    ("sony", 285, (8, 26), "SONY", "SLTA35"),
    ("sony", 286, (8, 19), "SONY", "SLTA65"),
    ("sony", 287, (8, 8), "SONY", "SLTA77"),
    ("sony", 288, (8, 12), "SONY", "NEX5N"),
    ("sony", 289, (8, 16), "SONY", "NEX7"),
    ("sony", 291, (8, 63), "SONY", "SLTA37"),
    ("sony", 292, (8, 44), "SONY", "SLTA57"),
    ("sony", 293, (8, 18), "SONY", "NEXF3"),
    ("sony", 294, (8, 29), "SONY", "SLTA99"),
    ("sony", 295, (8, 15), "SONY", "NEX6"),
    ("sony", 296, (8, 13), "SONY", "NEX5R"),
    ("sony", 297, (8, 30), "SONY", "RX100"),
    ("sony", 298, (8, 36), "SONY", "RX1"),
    ("sony", 302, (8, 54), "SONY", "ILCE3000"),
    ("sony", 303, (8, 55), "SONY", "SLTA58"),
    ("sony", 305, (8, 10), "SONY", "NEX3N"),
    ("sony", 306, (8, 45), "SONY", "ILCE7"),
    ("sony", 307, (8, 14), "SONY", "NEX5T"),
    ("sony", 308, (8, 31), "SONY", "RX100M2"),
    ("sony", 309, (8, 38), "SONY", "RX10"),
    ("sony", 310, (8, 37), "SONY", "RX1R"),
    ("sony", 311, (8, 48), "SONY", "ILCE7R"),
    ("sony", 312, (8, 56), "SONY", "ILCE6000"),
    ("sony", 313, (8, 66), "SONY", "ILCE5000"),
    ("sony", 317, (8, 32), "SONY", "RX100M3"),
    ("sony", 318, (8, 51), "SONY", "ILCE7S"),
    ("sony", 319, (8, 64), "SONY", "ILCA77M2"),
    ("sony", 339, (8, 60), "SONY", "ILCE5100"),
    ("sony", 340, (8, 46), "SONY", "ILCE7M2"),
    ("sony", 341, (8, 33), "SONY", "RX100M4"),
    ("sony", 342, (8, 39), "SONY", "RX10M2"),
    ("sony", 344, (8, 41), "SONY", "RX1RM2"),
    ("sony", 346, (8, 84), "SONY", "ILCEQX1"),
    ("sony", 347, (8, 49), "SONY", "ILCE7RM2"),
    ("sony", 350, (8, 52), "SONY", "ILCE7SM2"),
    ("sony", 353, (8, 65), "SONY", "ILCA68"),
    ("sony", 354, (8, 57), "SONY", "ILCA99M2"),
    ("sony", 355, (8, 40), "SONY", "RX10M3"),
    ("sony", 356, (8, 34), "SONY", "RX100M5"),
    ("sony", 357, (8, 58), "SONY", "ILCE6300"),
    ("sony", 358, (8, 53), "SONY", "ILCE9"),
    ("sony", 360, (8, 59), "SONY", "ILCE6500"),
    ("sony", 362, (8, 50), "SONY", "ILCE7RM3"),
    ("sony", 363, (8, 47), "SONY", "ILCE7M3"),
    ("sony", 364, (8, 43), "SONY", "RX0"),
    ("sony", 365, (8, 42), "SONY", "RX10M4"),
    ("sony", 366, (8, 35), "SONY", "RX100M6"),
    ("sony", 367, (8, 69), "SONY", "HX99"),
    ("sony", 369, (8, 68), "SONY", "RX100M5A"),
    ("sony", 371, (8, 70), "SONY", "ILCE6400"),
    ("sony", 372, (8, 71), "SONY", "RX0M2"),
    ("sony", 373, (8, 89), "SONY", "HX95"),
    ("sony", 374, (8, 73), "SONY", "RX100M7"),
    ("sony", 375, (8, 72), "SONY", "ILCE7RM4"),
    ("sony", 376, (8, 76), "SONY", "ILCE9M2"),
    ("sony", 378, (8, 75), "SONY", "ILCE6600"),
    ("sony", 379, (8, 74), "SONY", "ILCE6100"),
    ("sony", 380, (8, 77), "SONY", "ZV1"),
    ("sony", 381, (8, 80), "SONY", "ILCE7C"),
    ("sony", 382, (8, 81), "SONY", "ZVE10"),
    ("sony", 383, (8, 79), "SONY", "ILCE7SM3"),
    ("sony", 384, (8, 82), "SONY", "ILCE1"),
    ("sony", 385, (8, 95), "SONY", "ILME_FX3"),
    ("sony", 386, (8, 87), "SONY", "ILCE7RM3A"),
    ("sony", 387, (8, 88), "SONY", "ILCE7RM4A"),
    ("sony", 388, (8, 83), "SONY", "ILCE7M4"),
    ("sony", 390, (8, 90), "SONY", "ILCE7RM5"),
    ("sony", 391, (8, 92), "SONY", "ILME_FX30"),
    ("sony", 392, (8, 96), "SONY", "ILCE9M3"),
    ("sony", 393, (8, 91), "SONY", "ZVE1"),
    ("sony", 394, (8, 93), "SONY", "ILCE6700"),
    ("sony", 395, (8, 94), "SONY", "ZV1M2"),
    ("sony", 399, (8, 97), "SONY", "ZVE10M2"),
    ("sony", 400, (8, 98), "SONY", "ILCE1M2"),
    ("pentax", 0x12994, (4, 3), "PENTAX", "IST_D_PEF"),
    ("pentax", 0x12aa2, (4, 30), "PENTAX", "IST_DS_PEF"),
    ("pentax", 0x12b1a, (4, 4), "PENTAX", "IST_DL_PEF"),
    ("pentax", 0x12b7e, (4, 48), "PENTAX", "IST_DL2_PEF"),
    ("pentax", 0x12b9c, (4, 5), "PENTAX", "K100D_PEF"),
    ("pentax", 0x12b9d, (4, 53), "PENTAX", "K110D_PEF"),
    ("pentax", 0x12ba2, (4, 6), "PENTAX", "K100D_SUPER_PEF"),
    ("pentax", 0x12c1e, (4, 1), "PENTAX", "K10D_PEF"),
    ("pentax", 0x12cd2, (4, 7), "PENTAX", "K20D_PEF"),
    ("pentax", 0x12cfa, (4, 29), "PENTAX", "K200D_PEF"),
    ("pentax", 0x12d72, (4, 56), "PENTAX", "K2000_PEF"),
    ("pentax", 0x12d73, (4, 17), "PENTAX", "KM_PEF"),
    ("pentax", 0x12db8, (4, 11), "PENTAX", "K7_PEF"),
    ("pentax", 0x12dfe, (4, 9), "PENTAX", "KX_PEF"),
    ("pentax", 0x12e08, (4, 12), "PENTAX", "PENTAX_645D_PEF"),
    ("pentax", 0x12e6c, (4, 8), "PENTAX", "KR_PEF"),
    ("pentax", 0x12e76, (4, 10), "PENTAX", "K5_PEF"),
    ("pentax", 0x12f70, (4, 49), "PENTAX", "K5_II_PEF"),
    ("pentax", 0x12f71, (4, 31), "PENTAX", "K5_IIS_PEF"),
    ("pentax", 0x12fc0, (4, 51), "PENTAX", "K3_PEF"),
    ("pentax", 0x13010, (10, 6), "RICOH", "PENTAX_645Z_PEF"),
    ("pentax", 0x1301a, (4, 37), "PENTAX", "KS1_PEF"),
    ("pentax", 0x13024, (4, 39), "PENTAX", "KS2_PEF"),
    ("pentax", 0x13092, (4, 33), "PENTAX", "K1_PEF"),
    ("pentax", 0x1309c, (4, 52), "PENTAX", "K3_II_PEF"),
    ("pentax", 0x13222, (4, 35), "PENTAX", "K70_PEF"),
    ("pentax", 0x1322c, (4, 43), "PENTAX", "KP_PEF"),
    ("pentax", 0x13240, (4, 45), "PENTAX", "K1_MKII_PEF"),
    ("pentax", 0x13254, (4, 54), "PENTAX", "K3_MKIII_PEF"),
];

/// (where, (vendor, camera), black, white, matrix)
#[rustfmt::skip]
#[allow(clippy::type_complexity)]
pub const MATRICES: &[(&str, (u16, u16), u16, u16, [i32; 9])] = &[
    ("sony", (8, 1), 0, 4075, [9437, -2811, -774, -8405, 16215, 2290, -710, 596, 7181]),
    ("sony", (8, 2), 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    ("sony", (8, 61), 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    ("sony", (8, 67), 0, 0, [6038, -1484, -579, -9145, 16746, 2512, -875, 746, 7218]),
    ("sony", (8, 86), 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    ("sony", (8, 21), 0, 0, [9847, -3091, -928, -8485, 16345, 2225, -715, 595, 7103]),
    ("sony", (8, 85), 0, 0, [6038, -1484, -579, -9145, 16746, 2512, -875, 746, 7218]),
    ("sony", (8, 5), 0, 0, [6038, -1484, -579, -9145, 16746, 2512, -875, 746, 7218]),
    ("sony", (8, 22), 128, 4075, [4950, -580, -103, -5228, 12542, 3029, -709, 1435, 7371]),
    ("sony", (8, 62), 0, 0, [6046, -1127, -278, -5574, 13076, 2786, -691, 1419, 7625]),
    ("sony", (8, 4), 128, 4075, [4950, -580, -103, -5228, 12542, 3029, -709, 1435, 7371]),
    ("sony", (8, 28), 128, 4075, [4950, -580, -103, -5228, 12542, 3029, -709, 1435, 7371]),
    ("sony", (8, 23), 128, 0, [5932, -1492, -411, -4813, 12285, 2856, -741, 1524, 6739]),
    ("sony", (8, 3), 126, 0, [5775, -805, -359, -8574, 16295, 2391, -1943, 2341, 7249]),
    ("sony", (8, 24), 128, 0, [5413, -1162, -365, -5665, 13098, 2866, -608, 1179, 8440]),
    ("sony", (8, 25), 128, 0, [5209, -1072, -397, -8845, 16120, 2919, -1618, 1803, 8654]),
    ("sony", (8, 27), 128, 0, [6069, -1221, -366, -5221, 12779, 2734, -1024, 2066, 6834]),
    ("sony", (8, 26), 128, 0, [5986, -1618, -415, -4557, 11820, 3120, -681, 1404, 6971]),
    ("sony", (8, 63), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 7), 128, 0, [5932, -1492, -411, -4813, 12285, 2856, -741, 1524, 6739]),
    ("sony", (8, 44), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 55), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 19), 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    ("sony", (8, 65), 128, 0, [6435, -1903, -536, -4722, 12449, 2550, -663, 1363, 6517]),
    ("sony", (8, 8), 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    ("sony", (8, 64), 128, 0, [5991, -1732, -443, -4100, 11989, 2381, -704, 1467, 5992]),
    ("sony", (8, 29), 0, 0, [6344, -1612, -462, -4863, 12477, 2681, -865, 1786, 6899]),
    ("sony", (8, 57), 0, 0, [6660, -1918, -471, -4613, 12398, 2485, -649, 1433, 6447]),
    ("sony", (8, 9), 128, 0, [6549, -1550, -436, -4880, 12435, 2753, -854, 1868, 6976]),
    ("sony", (8, 89), 0, 0, [13076, -5686, -1481, -4027, 12851, 1251, -167, 725, 4937]),
    ("sony", (8, 69), 0, 0, [13076, -5686, -1481, -4027, 12851, 1251, -167, 725, 4937]),
    ("sony", (8, 10), 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    ("sony", (8, 11), 128, 0, [6549, -1550, -436, -4880, 12435, 2753, -854, 1868, 6976]),
    ("sony", (8, 12), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 13), 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    ("sony", (8, 14), 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    ("sony", (8, 17), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 18), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 15), 128, 0, [6129, -1545, -418, -4930, 12490, 2743, -977, 1693, 6615]),
    ("sony", (8, 16), 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    ("sony", (8, 78), 511, 16383, [8512, -2641, -694, -8041, 15670, 2526, -1820, 2117, 7414]),
    ("sony", (8, 30), 0, 0, [8651, -2754, -1057, -3464, 12207, 1373, -568, 1398, 4434]),
    ("sony", (8, 31), 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    ("sony", (8, 32), 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    ("sony", (8, 33), 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    ("sony", (8, 34), 0, 0, [6596, -2079, -562, -4782, 13016, 1933, -970, 1581, 5181]),
    ("sony", (8, 68), 0, 0, [11176, -4700, -965, -4004, 12184, 2032, -763, 1726, 5876]),
    ("sony", (8, 35), 0, 0, [7325, -2321, -596, -3494, 11674, 2055, -668, 1562, 5031]),
    ("sony", (8, 73), 0, 0, [7325, -2321, -596, -3494, 11674, 2055, -668, 1562, 5031]),
    ("sony", (8, 43), 0, 0, [9396, -3507, -843, -2497, 11111, 1572, -343, 1355, 5089]),
    ("sony", (8, 71), 0, 0, [9396, -3507, -843, -2497, 11111, 1572, -343, 1355, 5089]),
    ("sony", (8, 36), 0, 0, [6344, -1612, -462, -4863, 12477, 2681, -865, 1786, 6899]),
    ("sony", (8, 37), 0, 0, [6344, -1612, -462, -4863, 12477, 2681, -865, 1786, 6899]),
    ("sony", (8, 41), 0, 0, [6629, -1900, -483, -4618, 12349, 2550, -622, 1381, 6514]),
    ("sony", (8, 38), 0, 0, [6679, -1825, -745, -5047, 13256, 1953, -1580, 2422, 5183]),
    ("sony", (8, 39), 0, 0, [6679, -1825, -745, -5047, 13256, 1953, -1580, 2422, 5183]),
    ("sony", (8, 40), 0, 0, [6679, -1825, -745, -5047, 13256, 1953, -1580, 2422, 5183]),
    ("sony", (8, 42), 0, 0, [7699, -2566, -629, -2967, 11270, 1928, -378, 1286, 4807]),
    ("sony", (8, 82), 128, 0, [8161, -2947, -739, -4811, 12668, 2389, -437, 1229, 6524]),
    ("sony", (8, 98), 128, 0, [8161, -2947, -739, -4811, 12668, 2389, -437, 1229, 6524]),
    ("sony", (8, 54), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 66), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 60), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 56), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 74), 128, 0, [7657, -2847, -607, -4083, 11966, 2389, -684, 1418, 5844]),
    ("sony", (8, 58), 0, 0, [5973, -1695, -419, -3826, 11797, 2293, -639, 1398, 5789]),
    ("sony", (8, 70), 0, 0, [5973, -1695, -419, -3826, 11797, 2293, -639, 1398, 5789]),
    ("sony", (8, 59), 0, 0, [5973, -1695, -419, -3826, 11797, 2293, -639, 1398, 5789]),
    ("sony", (8, 75), 128, 0, [7657, -2847, -607, -4083, 11966, 2389, -684, 1418, 5844]),
    ("sony", (8, 93), 128, 0, [6972, -2408, -600, -4330, 12101, 2515, -388, 1277, 5847]),
    ("sony", (8, 45), 128, 0, [5271, -712, -347, -6153, 13653, 2763, -1601, 2366, 7242]),
    ("sony", (8, 46), 128, 0, [5271, -712, -347, -6153, 13653, 2763, -1601, 2366, 7242]),
    ("sony", (8, 47), 128, 0, [7374, -2389, -551, -5435, 13162, 2519, -1006, 1795, 6552]),
    ("sony", (8, 83), 128, 0, [7460, -2365, -588, -5687, 13442, 2474, -624, 1156, 6584]),
    ("sony", (8, 48), 128, 0, [4913, -541, -202, -6130, 13513, 2906, -1564, 2151, 7183]),
    ("sony", (8, 49), 0, 0, [6629, -1900, -483, -4618, 12349, 2550, -622, 1381, 6514]),
    ("sony", (8, 50), 0, 0, [6640, -1847, -503, -5238, 13010, 2474, -993, 1673, 6527]),
    ("sony", (8, 87), 0, 0, [6640, -1847, -503, -5238, 13010, 2474, -993, 1673, 6527]),
    ("sony", (8, 72), 0, 0, [6640, -1847, -503, -5238, 13010, 2474, -993, 1673, 6527]),
    ("sony", (8, 88), 0, 0, [7662, -2686, -660, -5240, 12965, 2530, -796, 1508, 6167]),
    ("sony", (8, 90), 0, 0, [8200, -2976, -719, -4296, 12053, 2532, -429, 1282, 5774]),
    ("sony", (8, 51), 128, 0, [5838, -1430, -246, -3497, 11477, 2297, -748, 1885, 5778]),
    ("sony", (8, 52), 128, 0, [5838, -1430, -246, -3497, 11477, 2297, -748, 1885, 5778]),
    ("sony", (8, 79), 128, 0, [6912, -2127, -469, -4470, 12175, 2587, -398, 1478, 6492]),
    ("sony", (8, 80), 128, 0, [7374, -2389, -551, -5435, 13162, 2519, -1006, 1795, 6552]),
    ("sony", (8, 53), 128, 0, [6389, -1703, -378, -4562, 12265, 2587, -670, 1489, 6550]),
    ("sony", (8, 76), 128, 0, [6389, -1703, -378, -4562, 12265, 2587, -670, 1489, 6550]),
    ("sony", (8, 96), 0, 0, [9811, -3908, -752, -3704, 11577, 2417, -73, 950, 5980]),
    ("sony", (8, 84), 128, 0, [5991, -1456, -455, -4764, 12135, 2980, -707, 1425, 6701]),
    ("sony", (8, 95), 128, 0, [6912, -2127, -469, -4470, 12175, 2587, -398, 1477, 6492]),
    ("sony", (8, 92), 128, 0, [6972, -2408, -600, -4330, 12101, 2515, -388, 1277, 5847]),
    ("sony", (8, 77), 128, 0, [8280, -2987, -703, -3531, 11645, 2133, -550, 1542, 5312]),
    ("sony", (8, 94), 128, 0, [8280, -2987, -703, -3531, 11645, 2133, -550, 1542, 5312]),
    ("sony", (8, 91), 128, 0, [6912, -2127, -469, -4470, 12175, 2587, -398, 1478, 6492]),
    ("sony", (8, 81), 128, 0, [6355, -2067, -490, -3653, 11542, 2400, -406, 1258, 5506]),
    ("sony", (8, 97), 128, 0, [6972, -2408, -600, -4330, 12101, 2515, -388, 1277, 5847]),
    ("sony", (20, 1), 128, 0, [5491, -1192, -363, -4951, 12342, 2948, -911, 1722, 7192]),
    ("panasonic", (11, 47), 15, 0, [8770, -3194, -820, -2871, 11281, 1803, -513, 1552, 4434]),
    ("panasonic", (11, 1), 15, 3986, [7888, -1902, -1011, -8106, 16085, 2099, -2353, 2866, 7330]),
    ("panasonic", (11, 2), 15, 4095, [7888, -1902, -1011, -8106, 16085, 2099, -2353, 2866, 7330]),
    ("panasonic", (11, 18), 15, 4095, [9051, -2468, -1204, -5212, 13276, 2121, -1197, 2510, 6890]),
    ("panasonic", (11, 23), 15, 4095, [8228, -2945, -660, -3938, 11792, 2430, -1094, 2278, 5793]),
    ("panasonic", (11, 27), 15, 4095, [8130, -2801, -946, -3520, 11289, 2552, -1314, 2511, 5791]),
    ("panasonic", (11, 46), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 85), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 68), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 20), 15, 0, [6763, -1919, -863, -3868, 11515, 2684, -1216, 2387, 5879]),
    ("panasonic", (11, 28), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 59), 15, 0, [7771, -3020, -629, -4029, 11950, 2345, -821, 1977, 6119]),
    ("panasonic", (11, 36), 15, 0, [7564, -2263, -606, -3148, 11239, 2177, -540, 1435, 4853]),
    ("panasonic", (11, 38), 15, 0, [7771, -3020, -629, -4029, 11950, 2345, -821, 1977, 6119]),
    ("panasonic", (11, 49), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 40), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 48), 15, 0, [7564, -2263, -606, -3148, 11239, 2177, -540, 1435, 4853]),
    ("panasonic", (11, 89), 0, 0, [9082, -2907, -925, -6119, 13376, 3058, -1797, 2641, 5608]),
    ("panasonic", (11, 10), 0, 3967, [8986, -2755, -802, -6341, 13575, 3077, -1476, 2144, 6379]),
    ("panasonic", (11, 11), 0, 0, [9932, -3060, -935, -5809, 13331, 2753, -1267, 2155, 5575]),
    ("panasonic", (11, 17), 15, 3990, [10109, -3488, -993, -5412, 12812, 2916, -1305, 2140, 5543]),
    ("panasonic", (11, 26), 143, 4095, [8112, -2563, -740, -3730, 11784, 2197, -941, 2075, 4933]),
    ("panasonic", (11, 35), 143, 4095, [7386, -2443, -743, -3437, 11864, 1757, -608, 1660, 4766]),
    ("panasonic", (11, 3), 0, 3988, [10976, -4029, -1141, -7918, 15491, 2600, -1670, 2071, 8246]),
    ("panasonic", (11, 80), 15, 0, [8378, -2798, -769, -3068, 11410, 1877, -538, 1792, 4623]),
    ("panasonic", (11, 42), 15, 0, [8378, -2798, -769, -3068, 11410, 1877, -538, 1792, 4623]),
    ("panasonic", (11, 57), 15, 0, [9938, -2780, -890, -4604, 12393, 2480, -1117, 2304, 4620]),
    ("panasonic", (11, 61), 0, 0, [13639, -5535, -1371, -1698, 9633, 2430, 316, 1152, 4108]),
    ("panasonic", (11, 53), 0, 0, [11532, -4324, -1066, -2375, 10847, 1749, -564, 1699, 4351]),
    ("panasonic", (11, 12), 0, 0, [7906, -2709, -594, -6231, 13351, 3220, -1922, 2631, 6537]),
    ("panasonic", (11, 81), 0, 0, [11532, -4324, -1066, -2375, 10847, 1749, -564, 1699, 4351]),
    ("panasonic", (11, 19), 143, 4095, [16197, -6146, -1761, -2393, 10765, 1869, 366, 2238, 5248]),
    ("panasonic", (11, 65), 0, 0, [7830, -2696, -763, -3325, 11667, 1866, -641, 1712, 4824]),
    ("panasonic", (11, 66), 0, 0, [9803, -4185, -992, -4066, 12578, 1628, -838, 1824, 5288]),
    ("panasonic", (11, 56), 0, 0, [11904, -4541, -1189, -2355, 10899, 1662, -296, 1586, 4289]),
    ("panasonic", (11, 41), 0, 0, [11532, -4324, -1066, -2375, 10847, 1749, -564, 1699, 4351]),
    ("panasonic", (11, 14), 15, 3988, [8199, -2065, -1056, -8124, 16156, 2033, -2458, 3022, 7220]),
    ("panasonic", (11, 15), 15, 3900, [10113, -3400, -1114, -4765, 12683, 2317, -377, 1437, 6710]),
    ("panasonic", (11, 21), 143, 4095, [6763, -1919, -863, -3868, 11515, 2684, -1216, 2387, 5879]),
    ("panasonic", (11, 22), 143, 4095, [7798, -2562, -740, -3879, 11584, 2613, -1055, 2248, 5434]),
    ("panasonic", (11, 4), 0, 0, [10113, -3400, -1114, -4765, 12683, 2317, -377, 1437, 6710]),
    ("panasonic", (11, 77), 143, 4095, [8294, -2891, -651, -3869, 11590, 2595, -1183, 2267, 5352]),
    ("panasonic", (11, 75), 0, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 78), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 33), 15, 0, [7610, -2780, -576, -4614, 12195, 2733, -1375, 2393, 6490]),
    ("panasonic", (11, 52), 0, 0, [7685, -2375, -634, -3687, 11700, 2249, -748, 1546, 5111]),
    ("panasonic", (11, 88), 0, 0, [8325, -3456, -623, -4330, 12089, 2528, -859, 2646, 5984]),
    ("panasonic", (11, 64), 0, 0, [9657, -3963, -748, -3361, 11378, 2258, -568, 1415, 5158]),
    ("panasonic", (11, 69), 0, 0, [9657, -3963, -748, -3361, 11378, 2258, -568, 1415, 5158]),
    ("panasonic", (11, 71), 0, 0, [8370, -2869, -710, -3389, 11372, 2298, -640, 1599, 4887]),
    ("panasonic", (11, 90), 0, 0, [8370, -2869, -710, -3389, 11372, 2298, -640, 1599, 4887]),
    ("panasonic", (11, 5), 15, 3986, [6299, -1466, -532, -6535, 13852, 2969, -2331, 3112, 5984]),
    ("panasonic", (11, 6), 15, 3989, [7780, -2410, -806, -3913, 11724, 2484, -1018, 2390, 5298]),
    ("panasonic", (11, 25), 144, 0, [6559, -1752, -491, -3672, 11407, 2586, -962, 1875, 5130]),
    ("panasonic", (11, 30), 15, 0, [7122, -2108, -512, -3155, 11201, 2231, -541, 1423, 5045]),
    ("panasonic", (11, 39), 15, 0, [7641, -2336, -605, -3218, 11299, 2187, -485, 1338, 5121]),
    ("panasonic", (11, 54), 15, 0, [6929, -2355, -708, -4192, 12534, 1828, -1097, 1989, 5195]),
    ("panasonic", (11, 73), 15, 0, [9300, -3659, -755, -2981, 10988, 2287, -190, 1077, 5016]),
    ("panasonic", (11, 74), 15, 0, [7949, -3491, -710, -3435, 11681, 1977, -503, 1622, 5065]),
    ("panasonic", (11, 91), 15, 0, [8573, -3575, -678, -4252, 12079, 2451, -808, 2524, 5936]),
    ("panasonic", (11, 29), 15, 0, [6770, -1895, -744, -5232, 13145, 2303, -1664, 2691, 5703]),
    ("panasonic", (11, 32), 15, 0, [8238, -3244, -679, -3921, 11814, 2384, -836, 2022, 5852]),
    ("panasonic", (11, 79), 0, 0, [9379, -3267, -816, -3227, 11560, 1881, -926, 1928, 5340]),
    ("panasonic", (11, 55), 0, 3971, [10704, -4187, -1230, -8314, 15952, 2501, -920, 945, 8927]),
    ("panasonic", (11, 7), 0, 0, [8048, -2810, -623, -6450, 13519, 3272, -1700, 2146, 7049]),
    ("panasonic", (11, 8), 15, 0, [8128, -2668, -655, -6134, 13307, 3161, -1782, 2568, 6083]),
    ("panasonic", (11, 9), 143, 0, [10909, -4295, -948, -1333, 9306, 2399, 22, 1738, 4582]),
    ("panasonic", (11, 24), 143, 0, [10148, -3743, -991, -2837, 11366, 1659, -701, 1893, 4899]),
    ("panasonic", (11, 34), 15, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    ("panasonic", (11, 31), 143, 0, [8844, -3538, -768, -3709, 11762, 2200, -698, 1792, 5220]),
    ("panasonic", (11, 60), 0, 0, [11577, -4230, -1106, -3967, 12211, 1957, -758, 1762, 5610]),
    ("panasonic", (11, 13), 0, 3967, [8054, -1885, -1025, -8349, 16367, 2040, -2805, 3542, 7629]),
    ("panasonic", (11, 16), 15, 3990, [8025, -1942, -1050, -7920, 15904, 2100, -2456, 3005, 7039]),
    ("panasonic", (11, 43), 15, 0, [8802, -3135, -789, -3151, 11468, 1904, -550, 1745, 4810]),
    ("panasonic", (11, 76), 15, 0, [8607, -2822, -808, -3755, 11930, 2049, -820, 2060, 5224]),
    ("panasonic", (11, 82), 15, 0, [8802, -3135, -789, -3151, 11468, 1904, -550, 1745, 4810]),
    ("panasonic", (11, 44), 15, 0, [8550, -2908, -842, -3195, 11529, 1881, -338, 1603, 4631]),
    ("panasonic", (11, 37), 0, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    ("panasonic", (11, 58), 0, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    ("panasonic", (11, 62), 0, 0, [9744, -3905, -779, -4899, 12807, 2324, -798, 1630, 5827]),
    ("panasonic", (11, 63), 0, 0, [11822, -5321, -1249, -5958, 15114, 766, -614, 1264, 7043]),
    ("panasonic", (11, 92), 0, 0, [9941, -4056, -871, -3745, 11604, 2433, -254, 1132, 5526]),
    ("panasonic", (11, 70), 0, 0, [9397, -3719, -805, -5425, 13326, 2309, -972, 1715, 6034]),
    ("panasonic", (11, 72), 0, 0, [9744, -3905, -779, -4899, 12807, 2324, -798, 1630, 5827]),
    ("panasonic", (11, 84), 0, 0, [10308, -4206, -783, -4088, 12102, 2229, -125, 1051, 5912]),
    ("panasonic", (11, 86), 0, 0, [10308, -4206, -783, -4088, 12102, 2229, -125, 1051, 5912]),
    ("panasonic", (11, 87), 0, 0, [9983, -3890, -840, -4180, 12164, 2263, -248, 1139, 5766]),
    ("panasonic", (11, 83), 0, 0, [9052, -3117, -883, -3045, 11346, 1927, -205, 1520, 4730]),
    ("panasonic", (11, 67), 0, 0, [12194, -5340, -1329, -3035, 11394, 1858, -50, 1418, 5219]),
    ("panasonic", (3, 4), 0, 0, [11340, -4069, -1275, -7555, 15266, 2448, -2960, 3426, 7685]),
    ("panasonic", (3, 39), 0, 0, [8054, -1886, -1025, -8348, 16367, 2040, -2805, 3542, 7630]),
    ("panasonic", (3, 5), 0, 0, [8048, -2810, -623, -6450, 13519, 3272, -1700, 2146, 7049]),
    ("panasonic", (3, 18), 0, 0, [8844, -3538, -768, -3709, 11762, 2200, -698, 1792, 5220]),
    ("panasonic", (3, 35), 0, 0, [8128, -2668, -655, -6134, 13307, 3161, -1782, 2568, 6083]),
    ("panasonic", (3, 26), 143, 0, [10909, -4295, -948, -1333, 9306, 2399, 22, 1738, 4582]),
    ("panasonic", (3, 6), 0, 0, [7906, -2709, -594, -6231, 13351, 3220, -1922, 2631, 6537]),
    ("panasonic", (3, 19), 0, 0, [8112, -2563, -740, -3730, 11784, 2197, -941, 2075, 4933]),
    ("panasonic", (3, 21), 0, 0, [7830, -2696, -763, -3325, 11667, 1866, -641, 1712, 4824]),
    ("panasonic", (3, 29), 0, 0, [9803, -4185, -992, -4066, 12578, 1628, -838, 1824, 5288]),
    ("panasonic", (3, 22), 15, 0, [7790, -2736, -755, -3452, 11870, 1769, -628, 1647, 4898]),
    ("panasonic", (3, 40), 0, 0, [10148, -3743, -991, -2837, 11366, 1659, -701, 1893, 4899]),
    ("panasonic", (3, 27), 0, 0, [11577, -4230, -1106, -3967, 12211, 1957, -758, 1762, 5610]),
    ("panasonic", (3, 28), 0, 0, [9379, -3267, -816, -3227, 11560, 1881, -926, 1928, 5340]),
    ("pentax", (4, 3), 0, 0, [9651, -2059, -1189, -8881, 16512, 2487, -1460, 1345, 10687]),
    ("pentax", (4, 4), 0, 0, [10829, -2838, -1115, -8339, 15817, 2696, -837, 680, 11939]),
    ("pentax", (4, 48), 0, 0, [10504, -2439, -1189, -8603, 16208, 2531, -1022, 863, 12242]),
    ("pentax", (4, 30), 0, 0, [10371, -2333, -1206, -8688, 16231, 2602, -1230, 1116, 11282]),
    ("pentax", (4, 1), 0, 0, [9566, -2863, -803, -7170, 15172, 2112, -818, 803, 9705]),
    ("pentax", (4, 33), 0, 0, [8566, -2746, -1201, -3612, 12204, 1550, -893, 1680, 6264]),
    ("pentax", (4, 45), 0, 0, [8596, -2981, -639, -4202, 12046, 2431, -685, 1424, 6122]),
    ("pentax", (4, 5), 127, 3950, [11095, -3157, -1324, -8377, 15834, 2720, -1108, 947, 11688]),
    ("pentax", (4, 6), 0, 0, [11095, -3157, -1324, -8377, 15834, 2720, -1108, 947, 11688]),
    ("pentax", (4, 53), 0, 0, [11095, -3157, -1324, -8377, 15834, 2720, -1108, 947, 11688]),
    ("pentax", (4, 7), 0, 0, [9427, -2714, -868, -7493, 16092, 1373, -2199, 3264, 7180]),
    ("pentax", (4, 29), 0, 0, [9186, -2678, -907, -8693, 16517, 2260, -1129, 1094, 8524]),
    ("pentax", (4, 56), 0, 0, [9730, -2989, -970, -8527, 16258, 2381, -1060, 970, 8362]),
    ("pentax", (4, 8), 0, 0, [9895, -3077, -850, -5304, 13035, 2521, -883, 1768, 6936]),
    ("pentax", (4, 51), 0, 0, [8542, -2581, -1144, -3995, 12301, 1881, -863, 1514, 5755]),
    ("pentax", (4, 52), 0, 0, [9251, -3817, -1069, -4627, 12667, 2175, -798, 1660, 5633]),
    ("pentax", (4, 54), 0, 0, [8571, -2590, -1148, -3995, 12301, 1881, -1052, 1844, 7013]),
    ("pentax", (4, 10), 0, 0, [8713, -2833, -743, -4342, 11900, 2772, -722, 1543, 6247]),
    ("pentax", (4, 49), 0, 0, [8435, -2549, -1130, -3995, 12301, 1881, -989, 1734, 6591]),
    ("pentax", (4, 31), 0, 0, [8170, -2725, -639, -4440, 12017, 2744, -771, 1465, 6599]),
    ("pentax", (4, 11), 0, 0, [9142, -2947, -678, -8648, 16967, 1663, -2224, 2898, 8615]),
    ("pentax", (4, 35), 0, 0, [8766, -3149, -747, -3976, 11943, 2292, -517, 1259, 5552]),
    ("pentax", (4, 17), 0, 0, [9730, -2989, -970, -8527, 16258, 2381, -1060, 970, 8362]),
    ("pentax", (4, 9), 0, 0, [8843, -2837, -625, -5025, 12644, 2668, -411, 1234, 7410]),
    ("pentax", (4, 37), 0, 0, [7989, -2511, -1137, -3882, 12350, 1689, -862, 1524, 6444]),
    ("pentax", (4, 39), 0, 0, [8662, -3280, -798, -3928, 11771, 2444, -586, 1232, 6054]),
    ("pentax", (4, 43), 0, 0, [8617, -3228, -1034, -4674, 12821, 2044, -803, 1577, 5728]),
    ("pentax", (4, 12), 0, 15872, [10646, -3593, -1158, -3329, 11699, 1831, -667, 2874, 6287]),
    ("pentax", (10, 6), 0, 16383, [9519, -3591, -664, -4074, 11725, 2671, -624, 1501, 6653]),
    ("epson", (5, 1), 0, 0, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145]),
    ("epson", (5, 2), 0, 0, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145]),
    ("epson", (5, 3), 0, 0, [6827, -1878, -732, -8429, 16012, 2564, -704, 592, 7145]),
    ("minolta", (6, 7), 0, 4091, [10284, -3283, -1086, -7957, 15762, 2316, -829, 882, 6644]),
    ("minolta", (6, 8), 0, 4091, [10239, -3104, -1099, -8037, 15727, 2451, -927, 925, 6871]),
    ("minolta", (6, 3), 0, 3965, [8983, -2942, -963, -6556, 14476, 2237, -2426, 2887, 8014]),
    ("minolta", (6, 4), 0, 3965, [9144, -2777, -998, -6676, 14556, 2281, -2470, 3019, 7744]),
    ("minolta", (6, 5), 0, 3965, [9144, -2777, -998, -6676, 14556, 2281, -2470, 3019, 7744]),
    ("minolta", (6, 6), 0, 3965, [11368, -3894, -1242, -6521, 14358, 2339, -2475, 3056, 7285]),
    ("minolta", (6, 1), 0, 3979, [9274, -2547, -1167, -8220, 16323, 1943, -2273, 2720, 8340]),
    ("minolta", (6, 2), 0, 3983, [9097, -2726, -1053, -8073, 15506, 2762, -966, 981, 7763]),
    ("minolta", (6, 9), 0, 0, [8560, -2487, -986, -8112, 15535, 2771, -1209, 1324, 7743]),
    ("canon", (1, 15), 0, 0, [9805, -2689, -1312, -5803, 13064, 3068, -2438, 3075, 8775]),
    ("canon", (1, 16), 0, 4000, [6188, -1341, -890, -7168, 14489, 2937, -2640, 3228, 8483]),
    ("canon", (1, 17), 0, 4000, [8197, -2000, -1118, -6714, 14335, 2592, -2536, 3178, 8266]),
    ("canon", (1, 14), 0, 4000, [8197, -2000, -1118, -6714, 14335, 2592, -2536, 3178, 8266]),
    ("canon", (1, 20), 0, 0, [9087, -2693, -1049, -6715, 14382, 2537, -2291, 2819, 7790]),
    ("canon", (1, 21), 0, 0, [9212, -2781, -1073, -6573, 14189, 2605, -2300, 2844, 7664]),
    ("canon", (1, 22), 0, 0, [9757, -2872, -933, -5972, 13861, 2301, -1622, 2328, 7212]),
    ("canon", (1, 23), 0, 0, [9877, -3775, -871, -7613, 14807, 3072, -1448, 1305, 7485]),
    ("canon", (1, 18), 0, 0, [10062, -3522, -999, -7643, 15117, 2730, -765, 817, 7323]),
    ("canon", (1, 103), 31, 0, [10566, -3652, -1129, -6552, 14662, 2006, -2197, 2581, 7670]),
    ("canon", (1, 104), 0, 0, [8510, -2487, -940, -6869, 14231, 2900, -2318, 2829, 9013]),
    ("canon", (1, 105), 129, 0, [8163, -2333, -955, -6682, 14174, 2751, -2077, 2597, 8041]),
    ("canon", (1, 106), 129, 0, [8882, -2571, -863, -6348, 14234, 2288, -1516, 2172, 6569]),
    ("canon", (1, 107), 129, 0, [8795, -2482, -797, -7804, 15403, 2573, -1422, 1996, 7082]),
    ("canon", (1, 108), 129, 0, [9976, -3810, -832, -7115, 14463, 2906, -901, 989, 7889]),
    ("canon", (1, 11), 0, 3616, [4374, 3631, -1743, -7520, 15212, 2472, -2892, 3632, 8161]),
    ("canon", (1, 8), 0, 3616, [6806, -179, -1020, -8097, 16415, 1687, -3267, 4236, 7690]),
    ("canon", (1, 9), 127, 3712, [6264, -582, -724, -8312, 15948, 2504, -1744, 1919, 8664]),
    ("canon", (1, 91), 0, 3712, [6240, -466, -822, -8180, 15825, 2500, -1801, 1938, 8042]),
    ("canon", (1, 10), 1023, 15280, [6291, -540, -976, -8350, 16145, 2311, -1714, 1858, 7326]),
    ("canon", (1, 30), 0, 15280, [6014, -220, -795, -4109, 12014, 2361, -561, 1824, 5787]),
    ("canon", (1, 12), 126, 3712, [6517, -602, -867, -8180, 15926, 2378, -1618, 1771, 7633]),
    ("canon", (1, 13), 0, 15280, [5859, -211, -930, -8255, 16017, 2353, -1732, 1887, 7448]),
    ("canon", (1, 45), 0, 15438, [6847, -614, -1014, -4669, 12737, 2139, -1197, 2488, 6846]),
    ("canon", (1, 71), 0, 15438, [7596, -978, -967, -4808, 12571, 2503, -1398, 2567, 5752]),
    ("canon", (1, 1), 126, 4095, [6599, -537, -891, -8071, 15783, 2424, -1983, 2234, 7462]),
    ("canon", (1, 27), 0, 0, [14155, -5065, -1382, -6550, 14633, 2039, -1623, 1824, 6561]),
    ("canon", (1, 2), 0, 0, [6257, -303, -1000, -7880, 15621, 2396, -1714, 1904, 7046]),
    ("canon", (1, 4), 255, 4095, [6018, -617, -965, -8645, 15881, 2975, -1530, 1719, 7642]),
    ("canon", (1, 3), 1021, 16224, [6071, -747, -856, -7653, 15365, 2441, -2025, 2553, 7315]),
    ("canon", (1, 5), 0, 3726, [7054, -1501, -990, -8156, 15544, 2812, -1278, 1414, 7796]),
    ("canon", (1, 6), 0, 14605, [5784, -262, -821, -7539, 15064, 2672, -1982, 2681, 7427]),
    ("canon", (1, 36), 0, 15763, [4920, 616, -593, -6493, 13964, 2784, -1774, 3178, 7005]),
    ("canon", (1, 31), 0, 13433, [4763, 712, -646, -6821, 14399, 2640, -1921, 3276, 6561]),
    ("canon", (1, 33), 0, 15831, [6941, -1164, -857, -3825, 11597, 2534, -416, 1540, 6039]),
    ("canon", (1, 40), 0, 13584, [6461, -907, -882, -4300, 12184, 2378, -819, 1944, 5931]),
    ("canon", (1, 124), 0, 12279, [6719, -994, -925, -4408, 12426, 2211, -887, 2129, 6051]),
    ("canon", (1, 47), 0, 13645, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    ("canon", (1, 54), 0, 15360, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    ("canon", (1, 72), 0, 0, [7457, -671, -937, -4849, 12495, 2643, -1213, 2354, 5492]),
    ("canon", (1, 76), 0, 0, [6970, -512, -968, -4425, 12161, 2553, -739, 1982, 5601]),
    ("canon", (1, 53), 0, 13583, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    ("canon", (1, 81), 0, 13583, [7377, -742, -998, -4235, 11981, 2549, -673, 1918, 5538]),
    ("canon", (1, 34), 0, 3651, [6771, -1139, -977, -7818, 15123, 2928, -1244, 1437, 7533]),
    ("canon", (1, 41), 0, 13584, [6444, -904, -893, -4563, 12308, 2535, -903, 2016, 6728]),
    ("canon", (1, 53), 0, 14342, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    ("canon", (1, 73), 0, 14274, [6461, -907, -882, -4300, 12184, 2378, -819, 1944, 5931]),
    ("canon", (1, 69), 0, 13584, [6939, -1016, -866, -4428, 12473, 2177, -1175, 2178, 6162]),
    ("canon", (1, 88), 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    ("canon", (1, 90), 0, 0, [6939, -1016, -866, -4428, 12473, 2177, -1175, 2178, 6162]),
    ("canon", (1, 7), 0, 3692, [6347, -479, -972, -8297, 15954, 2480, -1968, 2131, 7649]),
    ("canon", (1, 32), 0, 15600, [4716, 603, -830, -7798, 15474, 2480, -1496, 1937, 6651]),
    ("canon", (1, 44), 0, 0, [6722, -635, -963, -4287, 12460, 2028, -908, 2162, 5668]),
    ("canon", (1, 65), 0, 15280, [6446, -366, -864, -4436, 12204, 2513, -952, 2496, 6348]),
    ("canon", (1, 83), 0, 15510, [6250, -711, -808, -5153, 12794, 2636, -1249, 2198, 5610]),
    ("canon", (1, 62), 0, 15510, [6250, -711, -808, -5153, 12794, 2636, -1249, 2198, 5610]),
    ("canon", (1, 49), 0, 15490, [7034, -804, -1014, -4420, 12564, 2058, -851, 1994, 5758]),
    ("canon", (1, 80), 0, 0, [6875, -970, -932, -4691, 12459, 2501, -874, 1953, 5809]),
    ("canon", (1, 28), 0, 13584, [6844, -996, -856, -3876, 11761, 2396, -593, 1772, 6198]),
    ("canon", (1, 57), 0, 13584, [7268, -1082, -969, -4186, 11839, 2663, -825, 2029, 5839]),
    ("canon", (1, 56), 0, 15303, [7034, -804, -1014, -4420, 12564, 2058, -851, 1994, 5758]),
    ("canon", (1, 60), 0, 13966, [6362, -823, -847, -4426, 12109, 2616, -743, 1857, 5635]),
    ("canon", (1, 61), 0, 13583, [6362, -823, -847, -4426, 12109, 2616, -743, 1857, 5635]),
    ("canon", (1, 77), 0, 0, [7377, -742, -998, -4235, 11981, 2549, -673, 1918, 5538]),
    ("canon", (1, 50), 0, 0, [6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148]),
    ("canon", (1, 113), 0, 0, [6400, -480, -888, -5294, 13416, 2047, -1296, 2203, 6137]),
    ("canon", (1, 70), 0, 0, [6362, -823, -847, -4426, 12109, 2616, -743, 1857, 5635]),
    ("canon", (1, 66), 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    ("canon", (1, 78), 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    ("canon", (1, 75), 0, 0, [6400, -480, -888, -5294, 13416, 2047, -1296, 2203, 6137]),
    ("canon", (1, 79), 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    ("canon", (1, 25), 0, 0, [7368, -2141, -598, -5621, 13254, 2625, -1418, 1696, 5743]),
    ("canon", (1, 35), 0, 0, [11093, -3906, -1028, -5047, 12492, 2879, -1003, 1750, 5561]),
    ("canon", (1, 29), 120, 4095, [12177, -4817, -1069, -1612, 9864, 2049, -98, 850, 4471]),
    ("canon", (1, 38), 0, 0, [13244, -5501, -1248, -1508, 9858, 1935, -270, 1083, 4366]),
    ("canon", (1, 48), 0, 0, [7474, -2301, -567, -4056, 11456, 2975, -222, 716, 4181]),
    ("canon", (1, 55), 0, 0, [8020, -2687, -682, -3704, 11879, 2052, -965, 1921, 5556]),
    ("canon", (1, 42), 0, 0, [7378, -1255, -1043, -4088, 12251, 2048, -876, 1946, 5805]),
    ("canon", (1, 59), 0, 0, [7378, -1255, -1043, -4088, 12251, 2048, -876, 1946, 5805]),
    ("canon", (1, 82), 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    ("canon", (1, 63), 0, 0, [9701, -3857, -921, -3149, 11537, 1817, -786, 1817, 5147]),
    ("canon", (1, 67), 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    ("canon", (1, 58), 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    ("canon", (1, 68), 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    ("canon", (1, 74), 0, 0, [9602, -3823, -937, -2984, 11495, 1675, -407, 1415, 5049]),
    ("canon", (1, 64), 0, 0, [10056, -4131, -944, -2576, 11143, 1625, -238, 1294, 5179]),
    ("canon", (1, 37), 0, 0, [12374, -5016, -1049, -1677, 9902, 2078, -83, 852, 4683]),
    ("canon", (1, 39), 0, 0, [13440, -5896, -1279, -1236, 9598, 1931, -180, 1001, 4651]),
    ("canon", (1, 43), 0, 0, [7968, -2565, -636, -2873, 10697, 2513, 180, 667, 4211]),
    ("canon", (1, 109), 0, 0, [7968, -2565, -636, -2873, 10697, 2513, 180, 667, 4211]),
    ("canon", (1, 52), 0, 0, [8039, -2643, -654, -3783, 11230, 2930, -206, 690, 4194]),
    ("canon", (1, 86), 0, 0, [6961, -1685, -695, -4625, 12945, 1836, -1114, 2152, 5518]),
    ("canon", (1, 51), 0, 0, [12432, -4753, -1247, -2110, 10691, 1629, -412, 1623, 4926]),
    ("canon", (1, 87), 0, 0, [13161, -5451, -1344, -1989, 10654, 1531, -47, 1271, 4955]),
    ("canon", (1, 85), 0, 0, [6578, -259, -502, -5974, 13030, 3309, -308, 1058, 4970]),
    ("canon", (1, 99), 0, 0, [10463, -2173, -1437, -4856, 12635, 2482, -1216, 2915, 7237]),
    ("canon", (1, 84), 0, 0, [8532, -701, -1167, -4095, 11879, 2508, -797, 2424, 7010]),
    ("canon", (1, 114), 0, 0, [10463, -2173, -1437, -4856, 12635, 2482, -1216, 2915, 7237]),
    ("canon", (1, 97), 0, 0, [11498, -3759, -1516, -5073, 12954, 2349, -892, 1867, 6118]),
    ("canon", (1, 98), 0, 0, [11498, -3759, -1516, -5073, 12954, 2349, -892, 1867, 6118]),
    ("canon", (1, 89), 0, 0, [6446, -366, -864, -4436, 12204, 2513, -952, 2496, 6348]),
    ("canon", (1, 93), 0, 0, [8608, -2097, -1178, -5425, 13265, 2383, -1149, 2238, 5680]),
    ("canon", (1, 115), 0, 0, [9423, -2839, -1195, -4532, 12377, 2415, -483, 1374, 5276]),
    ("canon", (1, 101), 0, 0, [9766, -2953, -1254, -4276, 12116, 2433, -437, 1336, 5131]),
    ("canon", (1, 122), 0, 0, [9396, -2597, -1207, -4408, 12296, 2369, -505, 1575, 6077]),
    ("canon", (1, 120), 0, 0, [9269, -2012, -1107, -3990, 11762, 2527, -569, 2093, 4913]),
    ("canon", (1, 102), 0, 0, [8293, -1611, -1132, -4759, 12711, 2275, -1013, 2415, 5509]),
    ("canon", (1, 118), 0, 0, [9539, -2795, -1224, -4175, 11998, 2458, -465, 1755, 6048]),
    ("canon", (1, 116), 0, 0, [10424, -3138, -1300, -4221, 11938, 2584, -547, 1658, 6183]),
    ("canon", (1, 119), 0, 0, [9539, -2795, -1224, -4175, 11998, 2458, -465, 1755, 6048]),
    ("canon", (1, 123), 0, 0, [9020, -2275, -1209, -4916, 12856, 2284, -922, 1953, 5928]),
    ("canon", (1, 117), 0, 0, [9269, -2012, -1107, -3990, 11762, 2527, -569, 2093, 4913]),
    ("canon", (1, 121), 0, 0, [8230, -1515, -1032, -4179, 12004, 2454, -649, 2076, 4711]),
    ("canon", (1, 92), 0, 0, [18285, -8907, -1951, -1845, 10688, 1323, 364, 1101, 5139]),
    ("canon", (1, 94), 0, 0, [9079, -1923, -1236, -4677, 12454, 2492, -922, 2319, 5565]),
    ("canon", (1, 112), 0, 0, [9079, -1923, -1236, -4677, 12454, 2492, -922, 2319, 5565]),
    ("canon", (1, 96), 0, 0, [11629, -5713, -914, -2706, 11090, 1842, -206, 1225, 5515]),
    ("canon", (1, 95), 0, 0, [11629, -5713, -914, -2706, 11090, 1842, -206, 1225, 5515]),
    ("canon", (1, 100), 0, 0, [8971, -2022, -1242, -5405, 13249, 2380, -1280, 2483, 6072]),
    ("nikon", (2, 2), 0, 0, [16772, -4726, -2141, -7611, 15713, 1972, -2846, 3494, 9521]),
    ("nikon", (2, 4), 0, 0, [5902, -933, -782, -8983, 16719, 2354, -1402, 1455, 6464]),
    ("nikon", (2, 85), 0, 0, [11540, -4999, -991, -2949, 10963, 2278, -382, 1049, 5605]),
    ("nikon", (2, 3), 0, 0, [7702, -2245, -975, -9114, 17242, 1875, -2679, 3055, 8521]),
    ("nikon", (2, 7), 0, 4028, [8367, -2248, -763, -8758, 16447, 2422, -1527, 1550, 8053]),
    ("nikon", (2, 5), 0, 0, [5710, -901, -615, -8594, 16617, 2024, -2975, 4120, 6830]),
    ("nikon", (2, 73), 0, 0, [5710, -901, -615, -8594, 16617, 2024, -2975, 4120, 6830]),
    ("nikon", (2, 6), 0, 0, [10231, -2769, -1255, -8301, 15900, 2552, -797, 680, 7148]),
    ("nikon", (2, 74), 0, 0, [10231, -2769, -1255, -8301, 15900, 2552, -797, 680, 7148]),
    ("nikon", (2, 8), 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    ("nikon", (2, 27), 0, 0, [8828, -2406, -694, -4874, 12603, 2541, -660, 1509, 7587]),
    ("nikon", (2, 28), 0, 0, [7171, -1986, -648, -8085, 15555, 2718, -2170, 2512, 7457]),
    ("nikon", (2, 9), 0, 0, [9030, -1992, -715, -8465, 16302, 2255, -2689, 3217, 8069]),
    ("nikon", (2, 29), 0, 0, [9030, -1992, -715, -8465, 16302, 2255, -2689, 3217, 8069]),
    ("nikon", (2, 16), 0, 0, [8736, -2458, -935, -9075, 16894, 2251, -1354, 1242, 8263]),
    ("nikon", (2, 20), 0, 0, [7911, -2167, -813, -5327, 13150, 2408, -1288, 2483, 7968]),
    ("nikon", (2, 30), 0, 4025, [7013, -1408, -635, -5268, 12902, 2640, -1470, 2801, 7379]),
    ("nikon", (2, 56), 0, 0, [6988, -1384, -714, -5631, 13410, 2447, -1485, 2204, 7318]),
    ("nikon", (2, 59), 0, 0, [6988, -1384, -714, -5631, 13410, 2447, -1485, 2204, 7318]),
    ("nikon", (2, 72), 0, 0, [8821, -2938, -785, -4178, 12142, 2287, -824, 1651, 6860]),
    ("nikon", (2, 26), 0, 0, [8598, -2848, -857, -5618, 13606, 2195, -1002, 1773, 7137]),
    ("nikon", (2, 48), 0, 0, [8598, -2848, -857, -5618, 13606, 2195, -1002, 1773, 7137]),
    ("nikon", (2, 10), 0, 0, [6992, -1668, -806, -8138, 15748, 2543, -874, 850, 7897]),
    ("nikon", (2, 11), 0, 0, [8819, -2543, -911, -9025, 16928, 2151, -1329, 1213, 8449]),
    ("nikon", (2, 60), 0, 0, [9200, -3522, -992, -5755, 13803, 2117, -753, 1486, 6338]),
    ("nikon", (2, 12), 0, 0, [7732, -2422, -789, -8238, 15884, 2498, -859, 783, 7330]),
    ("nikon", (2, 61), 0, 0, [8813, -3210, -1036, -4703, 12868, 2021, -1054, 1940, 6129]),
    ("nikon", (2, 24), 0, 3840, [7309, -1403, -519, -8474, 16008, 2622, -2433, 2826, 8064]),
    ("nikon", (2, 25), 0, 15846, [8198, -2239, -724, -4871, 12389, 2798, -1043, 2050, 7181]),
    ("nikon", (2, 38), 0, 0, [8322, -3112, -1047, -6367, 14342, 2179, -988, 1638, 6394]),
    ("nikon", (2, 54), 0, 0, [6988, -1384, -714, -5631, 13410, 2447, -1485, 2204, 7318]),
    ("nikon", (2, 55), 0, 0, [8821, -2938, -785, -4178, 12142, 2287, -824, 1651, 6860]),
    ("nikon", (2, 58), 0, 0, [8821, -2938, -785, -4178, 12142, 2287, -824, 1651, 6860]),
    ("nikon", (2, 79), 0, 0, [9028, -3423, -1035, -6321, 14265, 2217, -1013, 1683, 6928]),
    ("nikon", (2, 44), 0, 0, [8736, -2458, -935, -9075, 16894, 2251, -1354, 1242, 8263]),
    ("nikon", (2, 35), 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    ("nikon", (2, 49), 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    ("nikon", (2, 13), 0, 0, [7732, -2422, -789, -8238, 15884, 2498, -859, 783, 7330]),
    ("nikon", (2, 14), 0, 0, [7732, -2422, -789, -8238, 15884, 2498, -859, 783, 7330]),
    ("nikon", (2, 31), 0, 0, [8139, -2171, -663, -8747, 16541, 2295, -1925, 2008, 8093]),
    ("nikon", (2, 19), 0, 0, [8198, -2239, -724, -4871, 12389, 2798, -1043, 2050, 7181]),
    ("nikon", (2, 39), 0, 0, [8322, -3112, -1047, -6367, 14342, 2179, -988, 1638, 6394]),
    ("nikon", (2, 53), 0, 0, [8322, -3112, -1047, -6367, 14342, 2179, -988, 1638, 6394]),
    ("nikon", (2, 50), 0, 0, [9020, -2890, -715, -4535, 12436, 2348, -934, 1919, 7086]),
    ("nikon", (2, 86), 0, 0, [8813, -3210, -1036, -4703, 12868, 2021, -1054, 1940, 6129]),
    ("nikon", (2, 76), 0, 0, [9943, -3269, -839, -5323, 13269, 2259, -1198, 2083, 7557]),
    ("nikon", (2, 15), 0, 0, [8629, -2410, -883, -9055, 16940, 2171, -1490, 1363, 8520]),
    ("nikon", (2, 32), 0, 0, [7866, -2108, -555, -4869, 12483, 2681, -1176, 2069, 7501]),
    ("nikon", (2, 33), 0, 0, [7866, -2108, -555, -4869, 12483, 2681, -1176, 2069, 7501]),
    ("nikon", (2, 57), 0, 0, [9369, -3195, -791, -4488, 12430, 2301, -893, 1796, 6872]),
    ("nikon", (2, 87), 0, 0, [10405, -3755, -1270, -5461, 13787, 1793, -1040, 2015, 6785]),
    ("nikon", (2, 34), 0, 3840, [7309, -1403, -519, -8474, 16008, 2622, -2434, 2826, 8064]),
    ("nikon", (2, 89), 0, 0, [10339, -3822, -890, -4183, 12023, 2436, -671, 1638, 7049]),
    ("nikon", (2, 68), 0, 0, [8210, -2534, -683, -5355, 13338, 2212, -1143, 1929, 6464]),
    ("nikon", (2, 81), 0, 0, [9943, -3269, -839, -5323, 13269, 2259, -1198, 2083, 7557]),
    ("nikon", (2, 92), 0, 0, [11206, -4286, -941, -4879, 12847, 2251, -745, 1654, 7374]),
    ("nikon", (2, 69), 0, 0, [10405, -3755, -1270, -5461, 13787, 1793, -1040, 2015, 6785]),
    ("nikon", (2, 82), 0, 0, [13705, -6004, -1400, -5464, 13568, 2062, -940, 1706, 7618]),
    ("nikon", (2, 90), 0, 0, [11423, -4564, -1123, -4816, 12895, 2119, -210, 1061, 7282]),
    ("nikon", (2, 84), 0, 0, [13389, -6049, -1441, -4544, 12757, 1969, 229, 498, 7390]),
    ("nikon", (2, 77), 0, 0, [11640, -4829, -1079, -5107, 13006, 2325, -972, 1711, 7380]),
    ("nikon", (2, 93), 0, 0, [11640, -4829, -1079, -5107, 13006, 2325, -972, 1711, 7380]),
    ("nikon", (2, 80), 0, 0, [8695, -2558, -648, -5015, 12711, 2575, -1279, 2215, 7514]),
    ("nikon", (2, 83), 0, 0, [11640, -4829, -1079, -5107, 13006, 2325, -972, 1711, 7380]),
    ("nikon", (2, 91), 0, 0, [11607, -4491, -977, -4522, 12460, 2304, -458, 1519, 7616]),
    ("nikon", (2, 45), 0, 0, [8598, -2848, -857, -5618, 13606, 2195, -1002, 1773, 7137]),
    ("nikon", (2, 46), 0, 0, [9349, -2987, -1001, -7919, 15766, 2266, -2098, 2680, 6839]),
    ("nikon", (2, 47), 0, 0, [7842, -2320, -992, -8154, 15718, 2599, -1098, 1342, 7560]),
    ("nikon", (2, 71), 0, 0, [7971, -2314, -913, -8451, 15762, 2894, -1442, 1520, 7610]),
    ("nikon", (2, 65), 200, 0, [14387, -6014, -1299, -1357, 9975, 1616, 467, 1047, 4744]),
    ("nikon", (2, 70), 0, 0, [14294, -6116, -1333, -1628, 10219, 1637, -14, 1158, 5022]),
    ("nikon", (2, 66), 200, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    ("nikon", (2, 67), 200, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    ("nikon", (2, 78), 0, 0, [13307, -5641, -1290, -2048, 10581, 1689, -64, 1222, 5176]),
    ("nikon", (2, 17), 0, 0, [9698, -3367, -914, -4706, 12584, 2368, -837, 968, 5801]),
    ("nikon", (2, 18), 0, 0, [11432, -3679, -1111, -3169, 11239, 2202, -791, 1380, 4455]),
    ("nikon", (2, 23), 0, 0, [11053, -4269, -1024, -1976, 10182, 2088, -526, 1263, 4469]),
    ("nikon", (2, 36), 0, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    ("nikon", (2, 88), 0, 0, [10321, -3920, -931, -2750, 11146, 1824, -442, 1545, 5539]),
    ("nikon", (2, 62), 0, 0, [6588, -1305, -693, -3277, 10987, 2634, -355, 2016, 5106]),
    ("nikon", (2, 21), 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    ("nikon", (2, 41), 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    ("nikon", (2, 42), 0, 0, [6588, -1305, -693, -3277, 10987, 2634, -355, 2016, 5106]),
    ("nikon", (2, 64), 0, 0, [5958, -1559, -571, -4021, 11453, 2939, -634, 1548, 5087]),
    ("nikon", (2, 51), 0, 0, [7520, -2518, -645, -3844, 12102, 1945, -913, 2249, 6835]),
    ("nikon", (2, 22), 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    ("nikon", (2, 37), 0, 0, [6588, -1305, -693, -3277, 10987, 2634, -355, 2016, 5106]),
    ("nikon", (2, 52), 0, 0, [5958, -1559, -571, -4021, 11453, 2939, -634, 1548, 5087]),
    ("nikon", (2, 43), 0, 0, [8994, -2667, -865, -4594, 12324, 2552, -699, 1786, 6260]),
    ("nikon", (2, 63), 0, 0, [6612, -1342, -618, -3338, 11055, 2623, -174, 1792, 5075]),
    ("nikon", (2, 40), 0, 0, [8198, -2239, -724, -4871, 12389, 2798, -1043, 2050, 7181]),
    ("nikon", (2, 75), 0, 0, [10601, -3487, -1127, -2931, 11443, 1676, -587, 1740, 5278]),
    ("fujifilm", (14, 54), 0, 0, [1369, -5358, -1474, -3369, 11600, 1998, -132, 1554, 4395]),
    ("fujifilm", (14, 1), 0, 0, [10004, -3219, -1201, -7036, 15047, 2107, -1863, 2565, 7736]),
    ("fujifilm", (14, 6), 0, 0, [11044, -3888, -1120, -7248, 15168, 2208, -1531, 2277, 8069]),
    ("fujifilm", (14, 2), 0, 0, [9183, -2526, -1078, -7461, 15071, 2574, -2022, 2440, 8639]),
    ("fujifilm", (14, 3), 128, 0, [12492, -4690, -1402, -7033, 15423, 1647, -1507, 2111, 7697]),
    ("fujifilm", (14, 4), 0, 0, [11807, -4612, -1294, -8927, 16968, 1988, -2120, 2741, 8006]),
    ("fujifilm", (14, 5), 0, 0, [12300, -5110, -1304, -9117, 17143, 1998, -1947, 2448, 8100]),
    ("fujifilm", (14, 7), 0, 0, [8754, -2732, -1019, -7204, 15069, 2276, -1702, 2334, 6982]),
    ("fujifilm", (14, 8), 0, 0, [9636, -2804, -988, -7442, 15040, 2589, -1803, 2311, 8621]),
    ("fujifilm", (14, 9), 0, 0, [10491, -3423, -1145, -7385, 15027, 2538, -1809, 2275, 8692]),
    ("fujifilm", (14, 66), 0, 0, [12628, -4887, -1401, -6861, 14996, 1962, -2198, 2782, 7091]),
    ("fujifilm", (14, 10), 0, 0, [12628, -4887, -1401, -6861, 14996, 1962, -2198, 2782, 7091]),
    ("fujifilm", (14, 67), 0, 0, [11705, -4262, -1107, -2282, 10791, 1709, -555, 1713, 4945]),
    ("fujifilm", (14, 11), 0, 3944, [12440, -3954, -1183, -1123, 9674, 1708, -83, 1614, 4086]),
    ("fujifilm", (14, 12), 0, 0, [1369, -5358, -1474, -3369, 11600, 1998, -132, 1554, 4395]),
    ("fujifilm", (14, 65), 0, 0, [12085, -4727, -953, -3257, 11489, 2002, -511, 2046, 4592]),
    ("fujifilm", (14, 14), 0, 0, [12161, -4457, -1069, -5034, 12874, 2400, -795, 1724, 6904]),
    ("fujifilm", (14, 15), 0, 0, [10592, -4262, -1008, -3514, 11355, 2465, -870, 2025, 6386]),
    ("fujifilm", (14, 16), 0, 0, [10592, -4262, -1008, -3514, 11355, 2465, -870, 2025, 6386]),
    ("fujifilm", (14, 17), 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    ("fujifilm", (14, 52), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 71), 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    ("fujifilm", (14, 18), 0, 0, [13509, -6199, -1254, -4430, 12733, 1865, -331, 1441, 5022]),
    ("fujifilm", (14, 19), 0, 0, [11768, -4971, -1133, -4904, 12927, 2183, -480, 1723, 4605]),
    ("fujifilm", (14, 20), 0, 0, [12328, -5256, -1144, -4469, 12927, 1675, -87, 1291, 4351]),
    ("fujifilm", (14, 21), 0, 0, [10450, -4329, -878, -3217, 11105, 2421, -752, 1758, 6519]),
    ("fujifilm", (14, 22), 0, 0, [10413, -3996, -993, -3721, 11640, 2361, -733, 1540, 6011]),
    ("fujifilm", (14, 23), 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    ("fujifilm", (14, 50), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 37), 0, 0, [11086, -4555, -839, -3512, 11310, 2517, -815, 1341, 5940]),
    ("fujifilm", (14, 61), 0, 0, [11540, -4999, -991, -2949, 10963, 2278, -382, 1049, 5605]),
    ("fujifilm", (14, 38), 0, 0, [10763, -4560, -917, -3346, 11311, 2322, -475, 1135, 5843]),
    ("fujifilm", (14, 39), 0, 0, [12407, -5222, -1086, -2971, 11116, 2120, -294, 1029, 5284]),
    ("fujifilm", (14, 40), 0, 0, [11673, -4760, -1041, -3988, 12058, 2166, -771, 1417, 5569]),
    ("fujifilm", (14, 49), 0, 0, [15055, -7391, -1274, -4062, 12071, 2238, -610, 1217, 6147]),
    ("fujifilm", (14, 41), 0, 0, [9252, -2704, -1064, -5893, 14265, 1717, -1101, 2341, 4349]),
    ("fujifilm", (14, 42), 0, 0, [9252, -2704, -1064, -5893, 14265, 1717, -1101, 2341, 4349]),
    ("fujifilm", (14, 25), 0, 0, [10413, -3996, -993, -3721, 11640, 2361, -733, 1540, 6011]),
    ("fujifilm", (14, 26), 0, 0, [8458, -2451, -855, -4597, 12447, 2407, -1475, 2482, 6526]),
    ("fujifilm", (14, 27), 0, 0, [11562, -5118, -961, -3022, 11007, 2311, -525, 1569, 6097]),
    ("fujifilm", (14, 28), 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    ("fujifilm", (14, 60), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 43), 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    ("fujifilm", (14, 63), 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    ("fujifilm", (14, 62), 0, 0, [12836, -5909, -1032, -3087, 11132, 2236, -35, 872, 5330]),
    ("fujifilm", (14, 30), 0, 0, [10413, -3996, -993, -3721, 11640, 2361, -733, 1540, 6011]),
    ("fujifilm", (14, 72), 0, 0, [12836, -5909, -1032, -3086, 11132, 2236, -35, 872, 5330]),
    ("fujifilm", (14, 31), 0, 0, [8458, -2451, -855, -4597, 12447, 2407, -1475, 2482, 6526]),
    ("fujifilm", (14, 32), 0, 0, [8458, -2451, -855, -4597, 12447, 2407, -1475, 2482, 6526]),
    ("fujifilm", (14, 33), 0, 0, [11673, -4760, -1041, -3988, 12058, 2166, -771, 1417, 5569]),
    ("fujifilm", (14, 34), 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    ("fujifilm", (14, 35), 0, 0, [11434, -4948, -1210, -3746, 12042, 1903, -666, 1479, 5235]),
    ("fujifilm", (14, 51), 0, 0, [15055, -7391, -1274, -4062, 12071, 2238, -610, 1217, 6147]),
    ("fujifilm", (14, 36), 0, 0, [16393, -7740, -1436, -4238, 12131, 2371, -633, 1424, 6553]),
    ("fujifilm", (14, 47), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 57), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 53), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 64), 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    ("fujifilm", (14, 69), 0, 0, [11809, -5358, -1141, -4248, 12164, 2343, -514, 1097, 5848]),
    ("fujifilm", (14, 24), 0, 0, [13509, -6199, -1254, -4430, 12733, 1865, -331, 1441, 5022]),
    ("fujifilm", (14, 56), 0, 0, [13426, -6334, -1177, -4244, 12136, 2371, -580, 1303, 5980]),
    ("fujifilm", (14, 68), 0, 0, [12836, -5909, -1032, -3086, 11132, 2236, -35, 872, 5330]),
    ("fujifilm", (14, 29), 0, 0, [13509, -6199, -1254, -4430, 12733, 1865, -331, 1441, 5022]),
    ("fujifilm", (14, 46), 0, 0, [11673, -4760, -1041, -3988, 12058, 2166, -771, 1417, 5569]),
    ("fujifilm", (14, 13), 512, 16383, [11401, -4498, -1312, -5088, 12751, 2613, -838, 1568, 5941]),
    ("fujifilm", (14, 55), 512, 16383, [11521, -4355, -1065, -6524, 13768, 3059, -1466, 1984, 6045]),
    ("fujifilm", (14, 44), 0, 0, [11756, -4754, -874, -3056, 11045, 2305, -381, 1457, 6006]),
    ("fujifilm", (14, 58), 0, 0, [11756, -4754, -874, -3056, 11045, 2305, -381, 1457, 6006]),
    ("fujifilm", (14, 45), 0, 0, [11756, -4754, -874, -3056, 11045, 2305, -381, 1457, 6006]),
    ("fujifilm", (14, 48), 0, 0, [16212, -8423, -1583, -4336, 12583, 1937, -195, 726, 6199]),
    ("fujifilm", (14, 70), 0, 0, [12806, -5779, -1110, -3546, 11507, 2318, -177, 995, 5715]),
    ("fujifilm", (14, 59), 0, 0, [16212, -8423, -1583, -4336, 12583, 1937, -195, 726, 6199]),
    ("fujifilm", (14, 73), 0, 0, [12806, -5779, -1110, -3546, 11507, 2318, -177, 995, 5715]),
    ("olympus", (7, 1), 0, 0, [11846, -4767, -945, -7027, 15878, 1089, -2699, 4122, 8311]),
    ("olympus", (7, 2), 0, 4092, [12745, -4500, -1416, -6062, 14542, 1580, -1934, 2256, 6603]),
    ("olympus", (7, 3), 0, 3993, [9487, -2875, -1115, -7533, 15606, 2010, -1618, 2100, 7389]),
    ("olympus", (7, 19), 0, 0, [11200, -3783, -1325, -4576, 12593, 2206, -695, 1742, 7504]),
    ("olympus", (7, 54), 0, 0, [8144, -1861, -1111, -7763, 15894, 1929, -1865, 2542, 7607]),
    ("olympus", (7, 4), 0, 0, [7828, -1761, -348, -5788, 14071, 1830, -2853, 4518, 6557]),
    ("olympus", (7, 5), 0, 0, [8961, -2473, -1084, -7979, 15990, 2067, -2319, 3035, 8249]),
    ("olympus", (7, 6), 0, 0, [6169, -1483, -21, -7107, 14761, 2536, -2904, 3580, 8568]),
    ("olympus", (7, 7), 0, 3946, [8856, -2582, -1026, -7761, 15766, 2082, -2009, 2575, 7469]),
    ("olympus", (7, 56), 0, 0, [8745, -2425, -1095, -7594, 15613, 2073, -1780, 2309, 7416]),
    ("olympus", (7, 57), 0, 0, [8745, -2425, -1095, -7594, 15613, 2073, -1780, 2309, 7416]),
    ("olympus", (7, 8), 0, 0, [8136, -1968, -299, -5481, 13742, 1871, -2556, 4205, 6630]),
    ("olympus", (7, 9), 0, 3946, [8785, -2529, -1033, -7639, 15624, 2112, -1783, 2300, 7817]),
    ("olympus", (7, 58), 0, 0, [8785, -2529, -1033, -7639, 15624, 2112, -1783, 2300, 7817]),
    ("olympus", (7, 59), 0, 0, [8453, -2198, -1092, -7609, 15681, 2008, -1725, 2337, 7824]),
    ("olympus", (7, 15), 0, 4015, [8453, -2198, -1092, -7609, 15681, 2008, -1725, 2337, 7824]),
    ("olympus", (7, 10), 0, 0, [12078, -4836, -1069, -6671, 14306, 2578, -786, 939, 7418]),
    ("olympus", (7, 13), 0, 4095, [9493, -3415, -666, -5211, 12334, 3260, -1548, 2262, 6482]),
    ("olympus", (7, 11), 0, 4094, [10593, -3607, -1010, -5881, 13127, 3084, -1200, 1805, 6721]),
    ("olympus", (7, 12), 0, 4094, [11597, -4006, -1049, -5432, 12799, 2957, -1029, 1750, 6516]),
    ("olympus", (7, 48), 0, 4094, [11856, -4470, -1159, -4814, 12368, 2756, -994, 1780, 5589]),
    ("olympus", (7, 61), 0, 4094, [11522, -4044, -1145, -4737, 12172, 2903, -987, 1829, 6039]),
    ("olympus", (7, 14), 0, 4093, [8343, -2050, -1021, -7715, 15705, 2103, -1831, 2380, 8235]),
    ("olympus", (7, 17), 0, 4093, [8343, -2050, -1021, -7715, 15705, 2103, -1831, 2380, 8235]),
    ("olympus", (7, 21), 0, 0, [7575, -2159, -571, -3722, 11341, 2725, -1434, 2819, 6271]),
    ("olympus", (7, 55), 0, 0, [8745, -2425, -1095, -7594, 15613, 2073, -1780, 2309, 7416]),
    ("olympus", (7, 62), 0, 0, [9476, -3182, -765, -2613, 10958, 1893, -449, 1315, 5268]),
    ("olympus", (7, 16), 0, 0, [11408, -4289, -1215, -4286, 12385, 2118, -387, 1467, 7787]),
    ("olympus", (7, 20), 0, 0, [15030, -5552, -1806, -3987, 12387, 1767, -592, 1670, 7023]),
    ("olympus", (7, 22), 0, 0, [7575, -2159, -571, -3722, 11341, 2725, -1434, 2819, 6271]),
    ("olympus", (7, 27), 0, 4043, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 30), 0, 4043, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 31), 0, 4043, [9197, -3190, -659, -2606, 10830, 2039, -458, 1250, 5458]),
    ("olympus", (7, 37), 0, 4043, [9197, -3190, -659, -2606, 10830, 2039, -458, 1250, 5458]),
    ("olympus", (7, 41), 0, 4043, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 49), 0, 4043, [9197, -3190, -659, -2606, 10830, 2039, -458, 1250, 5458]),
    ("olympus", (7, 23), 0, 0, [7575, -2159, -571, -3722, 11341, 2725, -1434, 2819, 6271]),
    ("olympus", (7, 26), 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 18), 0, 0, [10901, -4095, -1074, -1141, 9208, 2293, -62, 1417, 5158]),
    ("olympus", (7, 39), 0, 0, [9777, -3483, -925, -2886, 11297, 1800, -602, 1663, 5134]),
    ("olympus", (7, 25), 0, 0, [9777, -3483, -925, -2886, 11297, 1800, -602, 1663, 5134]),
    ("olympus", (7, 24), 0, 4065, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 32), 0, 0, [9422, -3258, -711, -2655, 10898, 2015, -512, 1354, 5512]),
    ("olympus", (7, 47), 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    ("olympus", (7, 28), 0, 0, [7687, -1984, -606, -4327, 11928, 2721, -1381, 2339, 6452]),
    ("olympus", (7, 33), 0, 0, [9383, -3170, -763, -2457, 10702, 2020, -384, 1236, 5552]),
    ("olympus", (7, 50), 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    ("olympus", (7, 35), 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 36), 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 43), 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 52), 0, 0, [8380, -2630, -639, -2887, 10725, 2496, -627, 1427, 5438]),
    ("olympus", (7, 51), 0, 0, [9476, -3182, -765, -2613, 10958, 1893, -449, 1315, 5268]),
    ("olympus", (7, 53), 0, 0, [9488, -3984, -714, -2887, 10945, 2229, -137, 960, 5786]),
    ("olympus", (7, 65), 0, 0, [9090, -3590, -756, -3252, 11396, 2109, -318, 1059, 5606]),
    ("olympus", (7, 66), 0, 0, [9090, -3590, -756, -3252, 11396, 2109, -318, 1059, 5606]),
    ("olympus", (7, 63), 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    ("olympus", (7, 45), 0, 0, [11896, -5110, -1076, -3181, 11378, 2048, -519, 1224, 5166]),
    ("olympus", (7, 29), 0, 0, [8360, -2420, -880, -3928, 12353, 1739, -1381, 2416, 5173]),
    ("olympus", (7, 42), 0, 0, [8360, -2420, -880, -3928, 12353, 1739, -1381, 2416, 5173]),
    ("olympus", (7, 34), 0, 0, [9476, -3182, -765, -2613, 10958, 1893, -449, 1315, 5268]),
    ("olympus", (7, 38), 0, 0, [10156, -3425, -1077, -2611, 11177, 1624, -385, 1592, 5080]),
    ("olympus", (7, 40), 0, 0, [11426, -4159, -1126, -2066, 10678, 1593, -120, 1327, 4998]),
    ("olympus", (7, 44), 0, 0, [10899, -3833, -1082, -2112, 10736, 1575, -267, 1452, 5269]),
    ("olympus", (7, 46), 0, 0, [10899, -3833, -1082, -2112, 10736, 1575, -267, 1452, 5269]),
    ("olympus", (7, 64), 0, 0, [10899, -3833, -1082, -2112, 10736, 1575, -267, 1452, 5269]),
    ("olympus", (7, 60), 0, 0, [10445, -3362, -1307, -7662, 15690, 2058, -1135, 1176, 7602]),
];

/// every identifier: (module, name, value)
#[rustfmt::skip]
pub const IDS: &[(&str, &str, u16)] = &[
    ("vendor", "NONE", 0),
    ("vendor", "CANON", 1),
    ("vendor", "NIKON", 2),
    ("vendor", "LEICA", 3),
    ("vendor", "PENTAX", 4),
    ("vendor", "EPSON", 5),
    ("vendor", "MINOLTA", 6),
    ("vendor", "OLYMPUS", 7),
    ("vendor", "SONY", 8),
    ("vendor", "SAMSUNG", 9),
    ("vendor", "RICOH", 10),
    ("vendor", "PANASONIC", 11),
    ("vendor", "MAMIYA", 12),
    ("vendor", "ADOBE", 13),
    ("vendor", "FUJIFILM", 14),
    ("vendor", "BLACKMAGIC", 15),
    ("vendor", "XIAOYI", 16),
    ("vendor", "APPLE", 17),
    ("vendor", "SIGMA", 18),
    ("vendor", "GOPRO", 19),
    ("vendor", "HASSELBLAD", 20),
    ("vendor", "ZEISS", 21),
    ("vendor", "DJI", 22),
    ("vendor", "NOKIA", 23),
    ("vendor", "GOOGLE", 24),
    ("vendor", "SEITZ", 25),
    ("vendor", "SEALIFE", 26),
    ("vendor", "PIXII", 27),
    ("vendor", "JPEG", 1000),
    ("generic", "UNKNOWN", 0),
    ("adobe", "DNG_GENERIC", 1),
    ("canon", "UNKNOWN", 0),
    ("canon", "EOS_20D", 1),
    ("canon", "EOS_30D", 2),
    ("canon", "EOS_40D", 3),
    ("canon", "EOS_350D", 4),
    ("canon", "REBEL_XT", 4),
    ("canon", "KISS_DIGITAL_N", 4),
    ("canon", "EOS_400D", 5),
    ("canon", "REBEL_XTI", 5),
    ("canon", "KISS_DIGITAL_X", 5),
    ("canon", "EOS_450D", 6),
    ("canon", "REBEL_XSI", 6),
    ("canon", "KISS_X2", 6),
    ("canon", "EOS_5D", 7),
    ("canon", "EOS_1D", 8),
    ("canon", "EOS_1DMKII", 9),
    ("canon", "EOS_1DMKIII", 10),
    ("canon", "EOS_1DS", 11),
    ("canon", "EOS_1DSMKII", 12),
    ("canon", "EOS_1DSMKIII", 13),
    ("canon", "EOS_300D", 14),
    ("canon", "DIGITAL_REBEL", 14),
    ("canon", "EOS_D30", 15),
    ("canon", "EOS_D60", 16),
    ("canon", "EOS_10D", 17),
    ("canon", "PRO1", 18),
    ("canon", "G1", 19),
    ("canon", "G2", 20),
    ("canon", "G3", 21),
    ("canon", "G5", 22),
    ("canon", "G6", 23),
    ("canon", "G7", 24),
    ("canon", "G9", 25),
    ("canon", "A610", 26),
    ("canon", "EOS_20DA", 27),
    ("canon", "EOS_7D", 28),
    ("canon", "G11", 29),
    ("canon", "EOS_1DMKIV", 30),
    ("canon", "EOS_500D", 31),
    ("canon", "REBEL_T1I", 31),
    ("canon", "KISS_X3", 31),
    ("canon", "EOS_5DMKII", 32),
    ("canon", "EOS_550D", 33),
    ("canon", "REBEL_T2I", 33),
    ("canon", "KISS_X4", 33),
    ("canon", "EOS_1000D", 34),
    ("canon", "REBEL_XS", 34),
    ("canon", "KISS_F", 34),
    ("canon", "G10", 35),
    ("canon", "EOS_50D", 36),
    ("canon", "EOS_60D", 124),
    ("canon", "S90", 37),
    ("canon", "G12", 38),
    ("canon", "S95", 39),
    ("canon", "EOS_600D", 40),
    ("canon", "REBEL_T3I", 40),
    ("canon", "KISS_X5", 40),
    ("canon", "EOS_1100D", 41),
    ("canon", "REBEL_T3", 41),
    ("canon", "KISS_X50", 41),
    ("canon", "G1X", 42),
    ("canon", "S100", 43),
    ("canon", "EOS_5DMKIII", 44),
    ("canon", "EOS_1DX", 45),
    ("canon", "EOS_60DA", 46),
    ("canon", "EOS_650D", 47),
    ("canon", "REBEL_T4I", 47),
    ("canon", "KISS_X6I", 47),
    ("canon", "G15", 48),
    ("canon", "EOS_6D", 49),
    ("canon", "EOS_M", 50),
    ("canon", "SX50_HS", 51),
    ("canon", "S110", 52),
    ("canon", "EOS_100D", 53),
    ("canon", "REBEL_SL1", 53),
    ("canon", "KISS_X7", 53),
    ("canon", "EOS_700D", 54),
    ("canon", "REBEL_T5I", 54),
    ("canon", "KISS_X7I", 54),
    ("canon", "G16", 55),
    ("canon", "EOS_70D", 56),
    ("canon", "EOS_7DMKII", 57),
    ("canon", "G7X", 58),
    ("canon", "G1XMKII", 59),
    ("canon", "EOS_750D", 60),
    ("canon", "REBEL_T6I", 60),
    ("canon", "KISS_X8I", 60),
    ("canon", "EOS_760D", 61),
    ("canon", "REBEL_T6S", 61),
    ("canon", "EOS_8000D", 61),
    ("canon", "EOS_5DS_R", 62),
    ("canon", "G3X", 63),
    ("canon", "G9XMKII", 64),
    ("canon", "EOS_5DMKIV", 65),
    ("canon", "EOS_M5", 66),
    ("canon", "G5X", 67),
    ("canon", "G7XMKII", 68),
    ("canon", "EOS_1300D", 69),
    ("canon", "REBEL_T6", 69),
    ("canon", "KISS_X80", 69),
    ("canon", "EOS_M3", 70),
    ("canon", "EOS_1DXMKII", 71),
    ("canon", "EOS_80D", 72),
    ("canon", "EOS_1200D", 73),
    ("canon", "REBEL_T5", 73),
    ("canon", "KISS_X70", 73),
    ("canon", "G9X", 74),
    ("canon", "EOS_M10", 75),
    ("canon", "EOS_800D", 76),
    ("canon", "REBEL_T7I", 76),
    ("canon", "KISS_X9I", 76),
    ("canon", "EOS_77D", 77),
    ("canon", "EOS_9000D", 77),
    ("canon", "EOS_M6", 78),
    ("canon", "EOS_M100", 79),
    ("canon", "EOS_6DMKII", 80),
    ("canon", "EOS_200D", 81),
    ("canon", "REBEL_SL2", 81),
    ("canon", "KISS_X9", 81),
    ("canon", "G1XMKIII", 82),
    ("canon", "EOS_5DS", 83),
    ("canon", "EOS_M50", 84),
    ("canon", "KISS_M", 84),
    ("canon", "SX1_IS", 85),
    ("canon", "S120", 86),
    ("canon", "SX60_HS", 87),
    ("canon", "EOS_2000D", 88),
    ("canon", "REBEL_T7", 88),
    ("canon", "KISS_X90", 88),
    ("canon", "EOS_R", 89),
    ("canon", "EOS_3000D", 90),
    ("canon", "T100", 90),
    ("canon", "EOS_4000D", 90),
    ("canon", "EOS_1DMKIIN", 91),
    ("canon", "SX70_HS", 92),
    ("canon", "EOS_RP", 93),
    ("canon", "EOS_250D", 94),
    ("canon", "REBEL_SL3", 94),
    ("canon", "KISS_X10", 94),
    ("canon", "EOS_200DMKII", 94),
    ("canon", "G7XMKIII", 95),
    ("canon", "G5XMKII", 96),
    ("canon", "EOS_M6MKII", 97),
    ("canon", "EOS_90D", 98),
    ("canon", "EOS_M200", 99),
    ("canon", "EOS_1DXMKIII", 100),
    ("canon", "EOS_R5", 101),
    ("canon", "EOS_R6", 102),
    ("canon", "S30", 103),
    ("canon", "S40", 104),
    ("canon", "S45", 105),
    ("canon", "S50", 106),
    ("canon", "S60", 107),
    ("canon", "S70", 108),
    ("canon", "S100V", 109),
    ("canon", "PRO70", 110),
    ("canon", "PRO90", 111),
    ("canon", "EOS_850D", 112),
    ("canon", "REBEL_T8I", 112),
    ("canon", "KISS_X10I", 112),
    ("canon", "EOS_M2", 113),
    ("canon", "EOS_M50MKII", 114),
    ("canon", "KISS_M2", 114),
    ("canon", "EOS_R3", 115),
    ("canon", "EOS_R7", 116),
    ("canon", "EOS_R10", 117),
    ("canon", "EOS_R6MKII", 118),
    ("canon", "EOS_R8", 119),
    ("canon", "EOS_R50", 120),
    ("canon", "EOS_R100", 121),
    ("canon", "EOS_R5MKII", 122),
    ("canon", "EOS_R1", 123),
    ("nikon", "UNKNOWN", 0),
    ("nikon", "E5700", 1),
    ("nikon", "D1", 2),
    ("nikon", "D1X", 3),
    ("nikon", "D100", 4),
    ("nikon", "D2H", 5),
    ("nikon", "D2X", 6),
    ("nikon", "D200", 7),
    ("nikon", "D3", 8),
    ("nikon", "D300", 9),
    ("nikon", "D40", 10),
    ("nikon", "D40X", 11),
    ("nikon", "D50", 12),
    ("nikon", "D70", 13),
    ("nikon", "D70S", 14),
    ("nikon", "D80", 15),
    ("nikon", "D3000", 16),
    ("nikon", "COOLPIX_P6000", 17),
    ("nikon", "COOLPIX_P7000", 18),
    ("nikon", "D7000", 19),
    ("nikon", "D3100", 20),
    ("nikon", "NIKON1_J1", 21),
    ("nikon", "NIKON1_V1", 22),
    ("nikon", "COOLPIX_P7100", 23),
    ("nikon", "D5000", 24),
    ("nikon", "D5100", 25),
    ("nikon", "D4", 26),
    ("nikon", "D3S", 27),
    ("nikon", "D3X", 28),
    ("nikon", "D300S", 29),
    ("nikon", "D3200", 30),
    ("nikon", "D700", 31),
    ("nikon", "D800", 32),
    ("nikon", "D800E", 33),
    ("nikon", "D90", 34),
    ("nikon", "D600", 35),
    ("nikon", "COOLPIX_P7700", 36),
    ("nikon", "NIKON1_V2", 37),
    ("nikon", "D5200", 38),
    ("nikon", "D7100", 39),
    ("nikon", "COOLPIX_A", 40),
    ("nikon", "NIKON1_J2", 41),
    ("nikon", "NIKON1_J3", 42),
    ("nikon", "NIKON1_S1", 43),
    ("nikon", "D60", 44),
    ("nikon", "DF", 45),
    ("nikon", "E5400", 46),
    ("nikon", "E8400", 47),
    ("nikon", "D4S", 48),
    ("nikon", "D610", 49),
    ("nikon", "D750", 50),
    ("nikon", "NIKON1_J5", 51),
    ("nikon", "NIKON1_V3", 52),
    ("nikon", "D7200", 53),
    ("nikon", "D5300", 54),
    ("nikon", "D5500", 55),
    ("nikon", "D3300", 56),
    ("nikon", "D810", 57),
    ("nikon", "D5600", 58),
    ("nikon", "D3400", 59),
    ("nikon", "D5", 60),
    ("nikon", "D500", 61),
    ("nikon", "NIKON1_AW1", 62),
    ("nikon", "NIKON1_S2", 63),
    ("nikon", "NIKON1_J4", 64),
    ("nikon", "COOLPIX_B700", 65),
    ("nikon", "COOLPIX_P330", 66),
    ("nikon", "COOLPIX_P340", 67),
    ("nikon", "Z6", 68),
    ("nikon", "Z7", 69),
    ("nikon", "COOLPIX_P1000", 70),
    ("nikon", "E8800", 71),
    ("nikon", "D3500", 72),
    ("nikon", "D2HS", 73),
    ("nikon", "D2XS", 74),
    ("nikon", "COOLPIX_A1000", 75),
    ("nikon", "D780", 76),
    ("nikon", "Z50", 77),
    ("nikon", "COOLPIX_P950", 78),
    ("nikon", "D6", 79),
    ("nikon", "Z5", 80),
    ("nikon", "Z6_2", 81),
    ("nikon", "Z7_2", 82),
    ("nikon", "ZFC", 83),
    ("nikon", "Z9", 84),
    ("nikon", "D1H", 85),
    ("nikon", "D7500", 86),
    ("nikon", "D850", 87),
    ("nikon", "COOLPIX_P7800", 88),
    ("nikon", "Z30", 89),
    ("nikon", "Z8", 90),
    ("nikon", "ZF", 91),
    ("nikon", "Z6_3", 92),
    ("nikon", "Z50_2", 93),
    ("leica", "DMR", 1),
    ("leica", "M8", 2),
    ("leica", "X1", 3),
    ("leica", "DIGILUX2", 4),
    ("leica", "DLUX_3", 5),
    ("leica", "VLUX_1", 6),
    ("leica", "M9", 7),
    ("leica", "S2", 8),
    ("leica", "M_MONOCHROM", 9),
    ("leica", "X2", 10),
    ("leica", "M_TYP240", 11),
    ("leica", "X_VARIO", 12),
    ("leica", "T_TYP701", 13),
    ("leica", "Q_TYP116", 14),
    ("leica", "X_TYP113", 15),
    ("leica", "M10", 16),
    ("leica", "SL_TYP601", 17),
    ("leica", "DLUX_TYP109", 18),
    ("leica", "VLUX_4", 19),
    ("leica", "CL", 20),
    ("leica", "VLUX_TYP114", 21),
    ("leica", "CLUX", 22),
    ("leica", "M10P", 23),
    ("leica", "M10D", 24),
    ("leica", "TL2", 25),
    ("leica", "DLUX_5", 26),
    ("leica", "DLUX_7", 27),
    ("leica", "C_TYP112", 28),
    ("leica", "VLUX_5", 29),
    ("leica", "Q2", 30),
    ("leica", "SL2", 31),
    ("leica", "M10_MONOCHROM", 32),
    ("leica", "M10R", 33),
    ("leica", "M_MONOCHROM_TYP246", 34),
    ("leica", "DLUX_4", 35),
    ("leica", "SL2S", 36),
    ("leica", "Q2_MONOCHROM", 37),
    ("leica", "M11", 38),
    ("leica", "DIGILUX3", 39),
    ("leica", "DLUX_6", 40),
    ("leica", "M11_MONOCHROM", 41),
    ("leica", "Q3", 42),
    ("leica", "SL3", 43),
    ("leica", "DLUX_8", 44),
    ("leica", "Q3_43", 45),
    ("pentax", "UNKNOWN", 0),
    ("pentax", "K10D_PEF", 1),
    ("pentax", "K10D_DNG", 2),
    ("pentax", "IST_D_PEF", 3),
    ("pentax", "IST_DL_PEF", 4),
    ("pentax", "K100D_PEF", 5),
    ("pentax", "K100D_SUPER_PEF", 6),
    ("pentax", "K20D_PEF", 7),
    ("pentax", "KR_PEF", 8),
    ("pentax", "KX_PEF", 9),
    ("pentax", "K5_PEF", 10),
    ("pentax", "K7_PEF", 11),
    ("pentax", "PENTAX_645D_PEF", 12),
    ("pentax", "PENTAX_645D_DNG", 13),
    ("pentax", "K2000_DNG", 14),
    ("pentax", "Q_DNG", 15),
    ("pentax", "K200D_DNG", 16),
    ("pentax", "KM_PEF", 17),
    ("pentax", "KX_DNG", 18),
    ("pentax", "KR_DNG", 19),
    ("pentax", "K01_DNG", 20),
    ("pentax", "K30_DNG", 21),
    ("pentax", "K5_IIS_DNG", 22),
    ("pentax", "MX1_DNG", 23),
    ("pentax", "Q10_DNG", 24),
    ("pentax", "Q7_DNG", 25),
    ("pentax", "K3_DNG", 26),
    ("pentax", "K50_DNG", 27),
    ("pentax", "K500_DNG", 28),
    ("pentax", "K200D_PEF", 29),
    ("pentax", "IST_DS_PEF", 30),
    ("pentax", "K5_IIS_PEF", 31),
    ("pentax", "K3_II_DNG", 32),
    ("pentax", "K1_PEF", 33),
    ("pentax", "K1_DNG", 34),
    ("pentax", "K70_PEF", 35),
    ("pentax", "K70_DNG", 36),
    ("pentax", "KS1_PEF", 37),
    ("pentax", "KS1_DNG", 38),
    ("pentax", "KS2_PEF", 39),
    ("pentax", "KS2_DNG", 40),
    ("pentax", "QS1_DNG", 41),
    ("pentax", "_QS1_PEF", 42),
    ("pentax", "KP_PEF", 43),
    ("pentax", "KP_DNG", 44),
    ("pentax", "K1_MKII_PEF", 45),
    ("pentax", "K1_MKII_DNG", 46),
    ("pentax", "K7_DNG", 47),
    ("pentax", "IST_DL2_PEF", 48),
    ("pentax", "K5_II_PEF", 49),
    ("pentax", "K5_II_DNG", 50),
    ("pentax", "K3_PEF", 51),
    ("pentax", "K3_II_PEF", 52),
    ("pentax", "K110D_PEF", 53),
    ("pentax", "K3_MKIII_PEF", 54),
    ("pentax", "K3_MKIII_DNG", 55),
    ("pentax", "K2000_PEF", 56),
    ("pentax", "K5_DNG", 57),
    ("pentax", "K20D_DNG", 58),
    ("pentax", "K3_MKIII_MONO_DNG", 59),
    ("epson", "UNKNOWN", 0),
    ("epson", "RD1", 1),
    ("epson", "RD1S", 2),
    ("epson", "RD1X", 3),
    ("minolta", "UNKNOWN", 0),
    ("minolta", "A1", 1),
    ("minolta", "A2", 2),
    ("minolta", "DIMAGE5", 3),
    ("minolta", "DIMAGE7", 4),
    ("minolta", "DIMAGE7I", 5),
    ("minolta", "DIMAGE7HI", 6),
    ("minolta", "MAXXUM_5D", 7),
    ("minolta", "MAXXUM_7D", 8),
    ("minolta", "A200", 9),
    ("olympus", "UNKNOWN", 0),
    ("olympus", "E1", 1),
    ("olympus", "E10", 2),
    ("olympus", "E3", 3),
    ("olympus", "E300", 4),
    ("olympus", "E330", 5),
    ("olympus", "E400", 6),
    ("olympus", "E410", 7),
    ("olympus", "E500", 8),
    ("olympus", "E510", 9),
    ("olympus", "SP350", 10),
    ("olympus", "SP510UZ", 11),
    ("olympus", "SP550UZ", 12),
    ("olympus", "SP500UZ", 13),
    ("olympus", "EP1", 14),
    ("olympus", "E620", 15),
    ("olympus", "EPL1", 16),
    ("olympus", "EP2", 17),
    ("olympus", "XZ1", 18),
    ("olympus", "E5", 19),
    ("olympus", "EPL2", 20),
    ("olympus", "EP3", 21),
    ("olympus", "EPL3", 22),
    ("olympus", "EPM1", 23),
    ("olympus", "EM5", 24),
    ("olympus", "XZ2", 25),
    ("olympus", "EPM2", 26),
    ("olympus", "EPL5", 27),
    ("olympus", "EM1", 28),
    ("olympus", "STYLUS1", 29),
    ("olympus", "EPL6", 30),
    ("olympus", "EPL7", 31),
    ("olympus", "EM5II", 32),
    ("olympus", "EM1II", 33),
    ("olympus", "PEN_F", 34),
    ("olympus", "EM10", 35),
    ("olympus", "EM10II", 36),
    ("olympus", "EPL8", 37),
    ("olympus", "SH2", 38),
    ("olympus", "XZ10", 39),
    ("olympus", "TG4", 40),
    ("olympus", "EPL9", 41),
    ("olympus", "STYLUS1_1S", 42),
    ("olympus", "EM10III", 43),
    ("olympus", "TG5", 44),
    ("olympus", "EM1X", 45),
    ("olympus", "TG6", 46),
    ("olympus", "EM5III", 47),
    ("olympus", "SP565UZ", 48),
    ("olympus", "EPL10", 49),
    ("olympus", "EM1III", 50),
    ("olympus", "EM10IV", 51),
    ("olympus", "EM10IIIS", 52),
    ("olympus", "OM1", 53),
    ("olympus", "E30", 54),
    ("olympus", "EP5", 55),
    ("olympus", "E420", 56),
    ("olympus", "E450", 57),
    ("olympus", "E520", 58),
    ("olympus", "E600", 59),
    ("olympus", "C5060WZ", 60),
    ("olympus", "SP570UZ", 61),
    ("olympus", "EP7", 62),
    ("olympus", "OM5", 63),
    ("olympus", "TG7", 64),
    ("olympus", "OM1II", 65),
    ("olympus", "OM3", 66),
    ("samsung", "UNKNOWN", 0),
    ("samsung", "GX10", 1),
    ("samsung", "PRO815", 2),
    ("samsung", "GX20", 3),
    ("ricoh", "GR2", 1),
    ("ricoh", "GXR", 2),
    ("ricoh", "GXR_A16", 3),
    ("ricoh", "GR", 4),
    ("ricoh", "GX200", 5),
    ("ricoh", "PENTAX_645Z_PEF", 6),
    ("ricoh", "PENTAX_645Z_DNG", 7),
    ("ricoh", "GRII", 8),
    ("ricoh", "GRIII", 9),
    ("ricoh", "GRIIIX", 10),
    ("sony", "UNKNOWN", 0),
    ("sony", "A100", 1),
    ("sony", "A200", 2),
    ("sony", "A700", 3),
    ("sony", "A550", 4),
    ("sony", "A380", 5),
    ("sony", "A390", 5),
    ("sony", "SLTA55", 7),
    ("sony", "SLTA77", 8),
    ("sony", "NEX3", 9),
    ("sony", "NEX3N", 10),
    ("sony", "NEX5", 11),
    ("sony", "NEX5N", 12),
    ("sony", "NEX5R", 13),
    ("sony", "NEX5T", 14),
    ("sony", "NEX6", 15),
    ("sony", "NEX7", 16),
    ("sony", "NEXC3", 17),
    ("sony", "NEXF3", 18),
    ("sony", "SLTA65", 19),
    ("sony", "A330", 21),
    ("sony", "A450", 22),
    ("sony", "A580", 23),
    ("sony", "A850", 24),
    ("sony", "A900", 25),
    ("sony", "SLTA35", 26),
    ("sony", "SLTA33", 27),
    ("sony", "A560", 28),
    ("sony", "SLTA99", 29),
    ("sony", "RX100", 30),
    ("sony", "RX100M2", 31),
    ("sony", "RX100M3", 32),
    ("sony", "RX100M4", 33),
    ("sony", "RX100M5", 34),
    ("sony", "RX100M6", 35),
    ("sony", "RX1", 36),
    ("sony", "RX1R", 37),
    ("sony", "RX10", 38),
    ("sony", "RX10M2", 39),
    ("sony", "RX10M3", 40),
    ("sony", "RX1RM2", 41),
    ("sony", "RX10M4", 42),
    ("sony", "RX0", 43),
    ("sony", "SLTA57", 44),
    ("sony", "ILCE7", 45),
    ("sony", "ILCE7M2", 46),
    ("sony", "ILCE7M3", 47),
    ("sony", "ILCE7R", 48),
    ("sony", "ILCE7RM2", 49),
    ("sony", "ILCE7RM3", 50),
    ("sony", "ILCE7S", 51),
    ("sony", "ILCE7SM2", 52),
    ("sony", "ILCE9", 53),
    ("sony", "ILCE3000", 54),
    ("sony", "ILCE3500", 54),
    ("sony", "SLTA58", 55),
    ("sony", "ILCE6000", 56),
    ("sony", "ILCA99M2", 57),
    ("sony", "ILCE6300", 58),
    ("sony", "ILCE6500", 59),
    ("sony", "ILCE5100", 60),
    ("sony", "A230", 61),
    ("sony", "A500", 62),
    ("sony", "SLTA37", 63),
    ("sony", "ILCA77M2", 64),
    ("sony", "ILCA68", 65),
    ("sony", "ILCE5000", 66),
    ("sony", "A290", 67),
    ("sony", "RX100M5A", 68),
    ("sony", "HX99", 69),
    ("sony", "ILCE6400", 70),
    ("sony", "RX0M2", 71),
    ("sony", "ILCE7RM4", 72),
    ("sony", "RX100M7", 73),
    ("sony", "ILCE6100", 74),
    ("sony", "ILCE6600", 75),
    ("sony", "ILCE9M2", 76),
    ("sony", "ZV1", 77),
    ("sony", "R1", 78),
    ("sony", "ILCE7SM3", 79),
    ("sony", "ILCE7C", 80),
    ("sony", "ZVE10", 81),
    ("sony", "ILCE1", 82),
    ("sony", "ILCE7M4", 83),
    ("sony", "ILCEQX1", 84),
    ("sony", "UMCR10C", 84),
    ("sony", "A350", 85),
    ("sony", "A300", 86),
    ("sony", "ILCE7RM3A", 87),
    ("sony", "ILCE7RM4A", 88),
    ("sony", "HX95", 89),
    ("sony", "ILCE7RM5", 90),
    ("sony", "ZVE1", 91),
    ("sony", "ILME_FX30", 92),
    ("sony", "ILCE6700", 93),
    ("sony", "ZV1M2", 94),
    ("sony", "ILME_FX3", 95),
    ("sony", "ILCE9M3", 96),
    ("sony", "ZVE10M2", 97),
    ("sony", "ILCE1M2", 98),
    ("panasonic", "UNKNOWN", 0),
    ("panasonic", "GF1", 1),
    ("panasonic", "GF2", 2),
    ("panasonic", "FZ30", 3),
    ("panasonic", "G10", 4),
    ("panasonic", "GH1", 5),
    ("panasonic", "GH2", 6),
    ("panasonic", "LX2", 7),
    ("panasonic", "LX3", 8),
    ("panasonic", "LX5", 9),
    ("panasonic", "FZ8", 10),
    ("panasonic", "FZ18", 11),
    ("panasonic", "FZ50", 12),
    ("panasonic", "L1", 13),
    ("panasonic", "G1", 14),
    ("panasonic", "G2", 15),
    ("panasonic", "L10", 16),
    ("panasonic", "FZ28", 17),
    ("panasonic", "GF3", 18),
    ("panasonic", "FZ100", 19),
    ("panasonic", "GX1", 20),
    ("panasonic", "G3", 21),
    ("panasonic", "G5", 22),
    ("panasonic", "GF5", 23),
    ("panasonic", "LX7", 24),
    ("panasonic", "GH3", 25),
    ("panasonic", "FZ200", 26),
    ("panasonic", "GF6", 27),
    ("panasonic", "GX7", 28),
    ("panasonic", "GM1", 29),
    ("panasonic", "GM1S", 29),
    ("panasonic", "GH4", 30),
    ("panasonic", "LX100", 31),
    ("panasonic", "GM5", 32),
    ("panasonic", "G80", 33),
    ("panasonic", "G85", 33),
    ("panasonic", "LX10", 34),
    ("panasonic", "LX15", 34),
    ("panasonic", "FZ2500", 35),
    ("panasonic", "FZ2000", 35),
    ("panasonic", "GX8", 36),
    ("panasonic", "ZS100", 37),
    ("panasonic", "TX1", 37),
    ("panasonic", "TZ100", 37),
    ("panasonic", "TZ101", 37),
    ("panasonic", "TZ110", 37),
    ("panasonic", "GX80", 38),
    ("panasonic", "GX85", 38),
    ("panasonic", "GH5", 39),
    ("panasonic", "GX850", 40),
    ("panasonic", "FZ80", 41),
    ("panasonic", "FZ82", 41),
    ("panasonic", "FZ330", 42),
    ("panasonic", "TZ70", 43),
    ("panasonic", "ZS60", 44),
    ("panasonic", "TZ80", 44),
    ("panasonic", "TZ81", 44),
    ("panasonic", "GF7", 46),
    ("panasonic", "CM1", 47),
    ("panasonic", "GX9", 48),
    ("panasonic", "GX7MK3", 48),
    ("panasonic", "GX800", 49),
    ("panasonic", "G9", 52),
    ("panasonic", "DC_FZ45", 53),
    ("panasonic", "GH5S", 54),
    ("panasonic", "LX1", 55),
    ("panasonic", "FZ150", 56),
    ("panasonic", "FZ35", 57),
    ("panasonic", "FZ38", 57),
    ("panasonic", "ZS200", 58),
    ("panasonic", "TX2", 58),
    ("panasonic", "TZ202", 58),
    ("panasonic", "ZS200D", 58),
    ("panasonic", "GX7MK2", 59),
    ("panasonic", "LX100M2", 60),
    ("panasonic", "DMC_FZ40", 61),
    ("panasonic", "DMC_FZ45", 61),
    ("panasonic", "DC_S1", 62),
    ("panasonic", "DC_S1R", 63),
    ("panasonic", "DC_G95", 64),
    ("panasonic", "DMC_FZ1000", 65),
    ("panasonic", "DC_FZ1000M2", 66),
    ("panasonic", "DC_ZS80", 67),
    ("panasonic", "DC_TZ95", 67),
    ("panasonic", "DC_TZ96", 67),
    ("panasonic", "GF10", 68),
    ("panasonic", "GX880", 68),
    ("panasonic", "DC_G99", 69),
    ("panasonic", "DC_G90", 69),
    ("panasonic", "DC_G91", 69),
    ("panasonic", "DC_G95D", 69),
    ("panasonic", "DC_S1H", 70),
    ("panasonic", "DC_G100", 71),
    ("panasonic", "DC_G110", 71),
    ("panasonic", "DC_S5", 72),
    ("panasonic", "GH5M2", 73),
    ("panasonic", "GH6", 74),
    ("panasonic", "G7", 75),
    ("panasonic", "G70", 75),
    ("panasonic", "ZS40", 76),
    ("panasonic", "TZ60", 76),
    ("panasonic", "TZ61", 76),
    ("panasonic", "G6", 77),
    ("panasonic", "G8", 78),
    ("panasonic", "G81", 78),
    ("panasonic", "LF1", 79),
    ("panasonic", "FZ300", 80),
    ("panasonic", "FZ70", 81),
    ("panasonic", "FZ72", 81),
    ("panasonic", "ZS50", 82),
    ("panasonic", "TZ71", 82),
    ("panasonic", "ZS70", 83),
    ("panasonic", "TZ90", 83),
    ("panasonic", "DC_S5M2", 84),
    ("panasonic", "GF8", 85),
    ("panasonic", "DC_S5M2X", 86),
    ("panasonic", "DC_S9", 87),
    ("panasonic", "G9M2", 88),
    ("panasonic", "FX150", 89),
    ("panasonic", "DC_G100D", 90),
    ("panasonic", "GH7", 91),
    ("panasonic", "DC_S1RM2", 92),
    ("fujifilm", "UNKNOWN", 0),
    ("fujifilm", "F700", 1),
    ("fujifilm", "E900", 2),
    ("fujifilm", "S2PRO", 3),
    ("fujifilm", "S3PRO", 4),
    ("fujifilm", "S5PRO", 5),
    ("fujifilm", "F810", 6),
    ("fujifilm", "S5000", 7),
    ("fujifilm", "S5600", 8),
    ("fujifilm", "S9500", 9),
    ("fujifilm", "S6500FD", 10),
    ("fujifilm", "HS10", 11),
    ("fujifilm", "HS30EXR", 12),
    ("fujifilm", "HS33EXR", 12),
    ("fujifilm", "S200EXR", 13),
    ("fujifilm", "X100", 14),
    ("fujifilm", "X100S", 15),
    ("fujifilm", "X100T", 16),
    ("fujifilm", "X100F", 17),
    ("fujifilm", "X10", 18),
    ("fujifilm", "X20", 19),
    ("fujifilm", "X30", 20),
    ("fujifilm", "X70", 21),
    ("fujifilm", "XPRO1", 22),
    ("fujifilm", "XPRO2", 23),
    ("fujifilm", "XS1", 24),
    ("fujifilm", "XE1", 25),
    ("fujifilm", "XE2", 26),
    ("fujifilm", "XE2S", 27),
    ("fujifilm", "XE3", 28),
    ("fujifilm", "XF1", 29),
    ("fujifilm", "XM1", 30),
    ("fujifilm", "XT1", 31),
    ("fujifilm", "XT10", 32),
    ("fujifilm", "XT100", 33),
    ("fujifilm", "XT2", 34),
    ("fujifilm", "XT20", 35),
    ("fujifilm", "XT3", 36),
    ("fujifilm", "XA1", 37),
    ("fujifilm", "XA2", 38),
    ("fujifilm", "XA3", 39),
    ("fujifilm", "XA5", 40),
    ("fujifilm", "XQ1", 41),
    ("fujifilm", "XQ2", 42),
    ("fujifilm", "XH1", 43),
    ("fujifilm", "GFX50S", 44),
    ("fujifilm", "GFX50R", 45),
    ("fujifilm", "XF10", 46),
    ("fujifilm", "XT30", 47),
    ("fujifilm", "GFX100", 48),
    ("fujifilm", "XA7", 49),
    ("fujifilm", "XPRO3", 50),
    ("fujifilm", "XT200", 51),
    ("fujifilm", "X100V", 52),
    ("fujifilm", "XT4", 53),
    ("fujifilm", "F550EXR", 54),
    ("fujifilm", "S100FS", 55),
    ("fujifilm", "XS10", 56),
    ("fujifilm", "XT30_II", 57),
    ("fujifilm", "GFX50S_II", 58),
    ("fujifilm", "GFX100S", 59),
    ("fujifilm", "XE4", 60),
    ("fujifilm", "XA10", 61),
    ("fujifilm", "XH2S", 62),
    ("fujifilm", "XH2", 63),
    ("fujifilm", "XT5", 64),
    ("fujifilm", "HS50EXR", 65),
    ("fujifilm", "S6000FD", 66),
    ("fujifilm", "SL1000", 67),
    ("fujifilm", "XS20", 68),
    ("fujifilm", "XT50", 69),
    ("fujifilm", "GFX100_II", 70),
    ("fujifilm", "X100VI", 71),
    ("fujifilm", "XM5", 72),
    ("fujifilm", "GFX100RF", 73),
    ("blackmagic", "POCKET_CINEMA", 1),
    ("xiaoyi", "M1", 1),
    ("xiaoyi", "YDXJ_2", 2),
    ("xiaoyi", "YIAC_3", 3),
    ("apple", "IPHONE_6SPLUS", 1),
    ("apple", "IPHONE_7PLUS", 2),
    ("apple", "IPHONE_SE", 3),
    ("apple", "IPHONE_8", 4),
    ("apple", "IPHONE_XS", 5),
    ("apple", "IPHONE_12_PRO", 6),
    ("apple", "IPHONE_13_PRO", 7),
    ("apple", "IPHONE_14", 8),
    ("apple", "IPHONE_15_PRO", 9),
    ("apple", "IPHONE_15_PRO_MAX", 10),
    ("sigma", "FP", 1),
    ("sigma", "FP_L", 2),
    ("sigma", "BF", 3),
    ("gopro", "HERO5_BLACK", 1),
    ("gopro", "HERO6_BLACK", 2),
    ("gopro", "HERO7_BLACK", 3),
    ("gopro", "HERO8_BLACK", 4),
    ("gopro", "HERO9_BLACK", 5),
    ("gopro", "HERO10_BLACK", 6),
    ("gopro", "HERO11_BLACK", 7),
    ("gopro", "HERO12_BLACK", 8),
    ("gopro", "FUSION", 9),
    ("hasselblad", "LUNAR", 1),
    ("hasselblad", "L1D_20C", 2),
    ("hasselblad", "L2D_20C", 3),
    ("zeiss", "ZX1", 1),
    ("dji", "FC350", 1),
    ("dji", "FC7303", 2),
    ("dji", "OSMO_ACTION", 3),
    ("dji", "FC220", 4),
    ("dji", "FC6310", 5),
    ("dji", "FC3582", 6),
    ("dji", "FC4280", 7),
    ("dji", "FC8284", 8),
    ("nokia", "LUMIA_1020", 1),
    ("google", "PIXEL_XL", 1),
    ("google", "PIXEL_2_XL", 2),
    ("google", "PIXEL_3A", 3),
    ("google", "PIXEL_3_XL", 4),
    ("google", "PIXEL_4A", 5),
    ("google", "PIXEL_4_XL", 6),
    ("google", "PIXEL_6_PRO", 7),
    ("google", "PIXEL_7A", 8),
    ("google", "PIXEL_7_PRO", 9),
    ("google", "PIXEL_8_PRO", 10),
    ("google", "PIXEL_9_PRO", 11),
    ("seitz", "ROUNDHSOT_D3", 1),
    ("sealife", "DC2000", 1),
    ("pixii", "A1112", 1),
    ("pixii", "A1571", 2),
    ("pixii", "_A2572", 3),
];

/// the constants of the C header
#[rustfmt::skip]
pub const HEADER: &[(&str, u32)] = &[
    ("OR_TYPEID_VENDOR_NONE", 0),
    ("OR_TYPEID_VENDOR_CANON", 1),
    ("OR_TYPEID_VENDOR_NIKON", 2),
    ("OR_TYPEID_VENDOR_LEICA", 3),
    ("OR_TYPEID_VENDOR_PENTAX", 4),
    ("OR_TYPEID_VENDOR_EPSON", 5),
    ("OR_TYPEID_VENDOR_MINOLTA", 6),
    ("OR_TYPEID_VENDOR_OLYMPUS", 7),
    ("OR_TYPEID_VENDOR_SONY", 8),
    ("OR_TYPEID_VENDOR_SAMSUNG", 9),
    ("OR_TYPEID_VENDOR_RICOH", 10),
    ("OR_TYPEID_VENDOR_PANASONIC", 11),
    ("OR_TYPEID_VENDOR_MAMIYA", 12),
    ("OR_TYPEID_VENDOR_ADOBE", 13),
    ("OR_TYPEID_VENDOR_FUJIFILM", 14),
    ("OR_TYPEID_VENDOR_BLACKMAGIC", 15),
    ("OR_TYPEID_VENDOR_XIAOYI", 16),
    ("OR_TYPEID_VENDOR_APPLE", 17),
    ("OR_TYPEID_VENDOR_SIGMA", 18),
    ("OR_TYPEID_VENDOR_GOPRO", 19),
    ("OR_TYPEID_VENDOR_HASSELBLAD", 20),
    ("OR_TYPEID_VENDOR_ZEISS", 21),
    ("OR_TYPEID_VENDOR_DJI", 22),
    ("OR_TYPEID_UNKNOWN", 0),
    ("OR_TYPEID_ADOBE_UNKNOWN", 0),
    ("OR_TYPEID_ADOBE_DNG_GENERIC", 1),
    ("OR_TYPEID_CANON_UNKNOWN", 0),
    ("OR_TYPEID_CANON_20D", 1),
    ("OR_TYPEID_CANON_30D", 2),
    ("OR_TYPEID_CANON_40D", 3),
    ("OR_TYPEID_CANON_350D", 4),
    ("OR_TYPEID_CANON_REBEL_XT", 4),
    ("OR_TYPEID_CANON_KISS_DIGITAL_N", 4),
    ("OR_TYPEID_CANON_400D", 5),
    ("OR_TYPEID_CANON_REBEL_XTI", 5),
    ("OR_TYPEID_CANON_KISS_DIGITAL_X", 5),
    ("OR_TYPEID_CANON_450D", 6),
    ("OR_TYPEID_CANON_REBEL_XSI", 6),
    ("OR_TYPEID_CANON_KISS_X2", 6),
    ("OR_TYPEID_CANON_5D", 7),
    ("OR_TYPEID_CANON_1D", 8),
    ("OR_TYPEID_CANON_1DMKII", 9),
    ("OR_TYPEID_CANON_1DMKIII", 10),
    ("OR_TYPEID_CANON_1DS", 11),
    ("OR_TYPEID_CANON_1DSMKII", 12),
    ("OR_TYPEID_CANON_1DSMKIII", 13),
    ("OR_TYPEID_CANON_300D", 14),
    ("OR_TYPEID_CANON_DIGITAL_REBEL", 14),
    ("OR_TYPEID_CANON_D30", 15),
    ("OR_TYPEID_CANON_D60", 16),
    ("OR_TYPEID_CANON_10D", 17),
    ("OR_TYPEID_CANON_PRO1", 18),
    ("OR_TYPEID_CANON_G1", 19),
    ("OR_TYPEID_CANON_G2", 20),
    ("OR_TYPEID_CANON_G3", 21),
    ("OR_TYPEID_CANON_G5", 22),
    ("OR_TYPEID_CANON_G6", 23),
    ("OR_TYPEID_CANON_G7", 24),
    ("OR_TYPEID_CANON_G9", 25),
    ("OR_TYPEID_CANON_A610", 26),
    ("OR_TYPEID_CANON_20DA", 27),
    ("OR_TYPEID_CANON_7D", 28),
    ("OR_TYPEID_CANON_G11", 29),
    ("OR_TYPEID_CANON_1DMKIV", 30),
    ("OR_TYPEID_CANON_500D", 31),
    ("OR_TYPEID_CANON_REBEL_T1I", 31),
    ("OR_TYPEID_CANON_KISS_X3", 31),
    ("OR_TYPEID_CANON_5DMKII", 32),
    ("OR_TYPEID_CANON_550D", 33),
    ("OR_TYPEID_CANON_REBEL_T2I", 33),
    ("OR_TYPEID_CANON_KISS_X4", 33),
    ("OR_TYPEID_CANON_1000D", 34),
    ("OR_TYPEID_CANON_REBEL_XS", 34),
    ("OR_TYPEID_CANON_KISS_F", 34),
    ("OR_TYPEID_CANON_G10", 35),
    ("OR_TYPEID_CANON_50D", 36),
    ("OR_TYPEID_CANON_60D", 124),
    ("OR_TYPEID_CANON_S90", 37),
    ("OR_TYPEID_CANON_G12", 38),
    ("OR_TYPEID_CANON_S95", 39),
    ("OR_TYPEID_CANON_600D", 40),
    ("OR_TYPEID_CANON_REBEL_T3I", 40),
    ("OR_TYPEID_CANON_KISS_X5", 40),
    ("OR_TYPEID_CANON_1100D", 41),
    ("OR_TYPEID_CANON_REBEL_T3", 41),
    ("OR_TYPEID_CANON_KISS_X50", 41),
    ("OR_TYPEID_CANON_G1X", 42),
    ("OR_TYPEID_CANON_S100", 43),
    ("OR_TYPEID_CANON_5DMKIII", 44),
    ("OR_TYPEID_CANON_1DX", 45),
    ("OR_TYPEID_CANON_60Da", 46),
    ("OR_TYPEID_CANON_650D", 47),
    ("OR_TYPEID_CANON_REBEL_T4I", 47),
    ("OR_TYPEID_CANON_KISS_X6I", 47),
    ("OR_TYPEID_CANON_G15", 48),
    ("OR_TYPEID_CANON_6D", 49),
    ("OR_TYPEID_CANON_EOS_M", 50),
    ("OR_TYPEID_CANON_SX50_HS", 51),
    ("OR_TYPEID_CANON_S110", 52),
    ("OR_TYPEID_CANON_100D", 53),
    ("OR_TYPEID_CANON_REBEL_SL1", 53),
    ("OR_TYPEID_CANON_KISS_X7", 53),
    ("OR_TYPEID_CANON_700D", 54),
    ("OR_TYPEID_CANON_REBEL_T5I", 54),
    ("OR_TYPEID_CANON_KISS_X7I", 54),
    ("OR_TYPEID_CANON_G16", 55),
    ("OR_TYPEID_CANON_70D", 56),
    ("OR_TYPEID_CANON_7DMKII", 57),
    ("OR_TYPEID_CANON_G7X", 58),
    ("OR_TYPEID_CANON_G1XMKII", 59),
    ("OR_TYPEID_CANON_750D", 60),
    ("OR_TYPEID_CANON_REBEL_T6I", 60),
    ("OR_TYPEID_CANON_KISS_X8I", 60),
    ("OR_TYPEID_CANON_760D", 61),
    ("OR_TYPEID_CANON_REBEL_T6S", 61),
    ("OR_TYPEID_CANON_8000D", 61),
    ("OR_TYPEID_CANON_5DS_R", 62),
    ("OR_TYPEID_CANON_G3X", 63),
    ("OR_TYPEID_CANON_G9XMKII", 64),
    ("OR_TYPEID_CANON_5DMKIV", 65),
    ("OR_TYPEID_CANON_EOS_M5", 66),
    ("OR_TYPEID_CANON_G5X", 67),
    ("OR_TYPEID_CANON_G7XMKII", 68),
    ("OR_TYPEID_CANON_1300D", 69),
    ("OR_TYPEID_CANON_REBEL_T6", 69),
    ("OR_TYPEID_CANON_KISS_X80", 69),
    ("OR_TYPEID_CANON_EOS_M3", 70),
    ("OR_TYPEID_CANON_1DXMKII", 71),
    ("OR_TYPEID_CANON_80D", 72),
    ("OR_TYPEID_CANON_1200D", 73),
    ("OR_TYPEID_CANON_REBEL_T5", 73),
    ("OR_TYPEID_CANON_KISS_X70", 73),
    ("OR_TYPEID_CANON_G9X", 74),
    ("OR_TYPEID_CANON_EOS_M10", 75),
    ("OR_TYPEID_CANON_800D", 76),
    ("OR_TYPEID_CANON_REBEL_T7I", 76),
    ("OR_TYPEID_CANON_KISS_X9I", 76),
    ("OR_TYPEID_CANON_77D", 77),
    ("OR_TYPEID_CANON_9000D", 77),
    ("OR_TYPEID_CANON_EOS_M6", 78),
    ("OR_TYPEID_CANON_EOS_M100", 79),
    ("OR_TYPEID_CANON_6DMKII", 80),
    ("OR_TYPEID_CANON_200D", 81),
    ("OR_TYPEID_CANON_REBEL_SL2", 81),
    ("OR_TYPEID_CANON_KISS_X9", 81),
    ("OR_TYPEID_CANON_G1XMKIII", 82),
    ("OR_TYPEID_CANON_5DS", 83),
    ("OR_TYPEID_CANON_EOS_M50", 84),
    ("OR_TYPEID_CANON_KISS_M", 84),
    ("OR_TYPEID_CANON_SX1_IS", 85),
    ("OR_TYPEID_CANON_S120", 86),
    ("OR_TYPEID_CANON_SX60_HS", 87),
    ("OR_TYPEID_CANON_2000D", 88),
    ("OR_TYPEID_CANON_REBEL_T7", 88),
    ("OR_TYPEID_CANON_KISS_X90", 88),
    ("OR_TYPEID_CANON_EOS_R", 89),
    ("OR_TYPEID_CANON_3000D", 90),
    ("OR_TYPEID_CANON_T100", 90),
    ("OR_TYPEID_CANON_4000D", 90),
    ("OR_TYPEID_CANON_1DMKIIN", 91),
    ("OR_TYPEID_CANON_SX70_HS", 92),
    ("OR_TYPEID_CANON_EOS_RP", 93),
    ("OR_TYPEID_CANON_250D", 94),
    ("OR_TYPEID_CANON_REBEL_SL3", 94),
    ("OR_TYPEID_CANON_KISS_X10", 94),
    ("OR_TYPEID_CANON_200D_MKII", 94),
    ("OR_TYPEID_CANON_G7XMKIII", 95),
    ("OR_TYPEID_CANON_G5XMKII", 96),
    ("OR_TYPEID_CANON_EOS_M6MKII", 97),
    ("OR_TYPEID_CANON_90D", 98),
    ("OR_TYPEID_CANON_EOS_M200", 99),
    ("OR_TYPEID_CANON_1DXMKIII", 100),
    ("OR_TYPEID_CANON_EOS_R5", 101),
    ("OR_TYPEID_CANON_EOS_R6", 102),
    ("OR_TYPEID_CANON_S30", 103),
    ("OR_TYPEID_CANON_S40", 104),
    ("OR_TYPEID_CANON_S45", 105),
    ("OR_TYPEID_CANON_S50", 106),
    ("OR_TYPEID_CANON_S60", 107),
    ("OR_TYPEID_CANON_S70", 108),
    ("OR_TYPEID_CANON_S100V", 109),
    ("OR_TYPEID_CANON_PRO70", 110),
    ("OR_TYPEID_CANON_PRO90", 111),
    ("OR_TYPEID_CANON_850D", 112),
    ("OR_TYPEID_CANON_REBEL_T8I", 112),
    ("OR_TYPEID_CANON_KISS_X10I", 112),
    ("OR_TYPEID_CANON_EOS_M2", 113),
    ("OR_TYPEID_CANON_EOS_M50MKII", 114),
    ("OR_TYPEID_CANON_KISS_M2", 114),
    ("OR_TYPEID_CANON_EOS_R3", 115),
    ("OR_TYPEID_CANON_EOS_R7", 116),
    ("OR_TYPEID_CANON_EOS_R10", 117),
    ("OR_TYPEID_CANON_EOS_R6MKII", 118),
    ("OR_TYPEID_CANON_EOS_R8", 119),
    ("OR_TYPEID_CANON_EOS_R50", 120),
    ("OR_TYPEID_NIKON_UNKNOWN", 0),
    ("OR_TYPEID_NIKON_E5700", 1),
    ("OR_TYPEID_NIKON_D1", 2),
    ("OR_TYPEID_NIKON_D1X", 3),
    ("OR_TYPEID_NIKON_D100", 4),
    ("OR_TYPEID_NIKON_D2H", 5),
    ("OR_TYPEID_NIKON_D2X", 6),
    ("OR_TYPEID_NIKON_D200", 7),
    ("OR_TYPEID_NIKON_D3", 8),
    ("OR_TYPEID_NIKON_D300", 9),
    ("OR_TYPEID_NIKON_D40", 10),
    ("OR_TYPEID_NIKON_D40X", 11),
    ("OR_TYPEID_NIKON_D50", 12),
    ("OR_TYPEID_NIKON_D70", 13),
    ("OR_TYPEID_NIKON_D70S", 14),
    ("OR_TYPEID_NIKON_D80", 15),
    ("OR_TYPEID_NIKON_D3000", 16),
    ("OR_TYPEID_NIKON_COOLPIX_P6000", 17),
    ("OR_TYPEID_NIKON_COOLPIX_P7000", 18),
    ("OR_TYPEID_NIKON_D7000", 19),
    ("OR_TYPEID_NIKON_D3100", 20),
    ("OR_TYPEID_NIKON_1_J1", 21),
    ("OR_TYPEID_NIKON_1_V1", 22),
    ("OR_TYPEID_NIKON_COOLPIX_P7100", 23),
    ("OR_TYPEID_NIKON_D5000", 24),
    ("OR_TYPEID_NIKON_D5100", 25),
    ("OR_TYPEID_NIKON_D4", 26),
    ("OR_TYPEID_NIKON_D3S", 27),
    ("OR_TYPEID_NIKON_D3X", 28),
    ("OR_TYPEID_NIKON_D300S", 29),
    ("OR_TYPEID_NIKON_D3200", 30),
    ("OR_TYPEID_NIKON_D700", 31),
    ("OR_TYPEID_NIKON_D800", 32),
    ("OR_TYPEID_NIKON_D800E", 33),
    ("OR_TYPEID_NIKON_D90", 34),
    ("OR_TYPEID_NIKON_D600", 35),
    ("OR_TYPEID_NIKON_COOLPIX_P7700", 36),
    ("OR_TYPEID_NIKON_1_V2", 37),
    ("OR_TYPEID_NIKON_D5200", 38),
    ("OR_TYPEID_NIKON_D7100", 39),
    ("OR_TYPEID_NIKON_COOLPIX_A", 40),
    ("OR_TYPEID_NIKON_1_J2", 41),
    ("OR_TYPEID_NIKON_1_J3", 42),
    ("OR_TYPEID_NIKON_1_S1", 43),
    ("OR_TYPEID_NIKON_D60", 44),
    ("OR_TYPEID_NIKON_DF", 45),
    ("OR_TYPEID_NIKON_E5400", 46),
    ("OR_TYPEID_NIKON_E8400", 47),
    ("OR_TYPEID_NIKON_D4S", 48),
    ("OR_TYPEID_NIKON_D610", 49),
    ("OR_TYPEID_NIKON_D750", 50),
    ("OR_TYPEID_NIKON_1_J5", 51),
    ("OR_TYPEID_NIKON_1_V3", 52),
    ("OR_TYPEID_NIKON_D7200", 53),
    ("OR_TYPEID_NIKON_D5300", 54),
    ("OR_TYPEID_NIKON_D5500", 55),
    ("OR_TYPEID_NIKON_D3300", 56),
    ("OR_TYPEID_NIKON_D810", 57),
    ("OR_TYPEID_NIKON_D5600", 58),
    ("OR_TYPEID_NIKON_D3400", 59),
    ("OR_TYPEID_NIKON_D5", 60),
    ("OR_TYPEID_NIKON_D500", 61),
    ("OR_TYPEID_NIKON_1_AW1", 62),
    ("OR_TYPEID_NIKON_1_S2", 63),
    ("OR_TYPEID_NIKON_1_J4", 64),
    ("OR_TYPEID_NIKON_COOLPIX_B700", 65),
    ("OR_TYPEID_NIKON_COOLPIX_P330", 66),
    ("OR_TYPEID_NIKON_COOLPIX_P340", 67),
    ("OR_TYPEID_NIKON_Z6", 68),
    ("OR_TYPEID_NIKON_Z7", 69),
    ("OR_TYPEID_NIKON_COOLPIX_P1000", 70),
    ("OR_TYPEID_NIKON_E8800", 71),
    ("OR_TYPEID_NIKON_D3500", 72),
    ("OR_TYPEID_NIKON_D2HS", 73),
    ("OR_TYPEID_NIKON_D2XS", 74),
    ("OR_TYPEID_NIKON_COOLPIX_A1000", 75),
    ("OR_TYPEID_NIKON_D780", 76),
    ("OR_TYPEID_NIKON_Z50", 77),
    ("OR_TYPEID_NIKON_COOLPIX_P950", 78),
    ("OR_TYPEID_NIKON_D6", 79),
    ("OR_TYPEID_NIKON_Z5", 80),
    ("OR_TYPEID_NIKON_Z6_2", 81),
    ("OR_TYPEID_NIKON_Z7_2", 82),
    ("OR_TYPEID_NIKON_ZFC", 83),
    ("OR_TYPEID_NIKON_Z9", 84),
    ("OR_TYPEID_NIKON_D1H", 85),
    ("OR_TYPEID_NIKON_D7500", 86),
    ("OR_TYPEID_NIKON_D850", 87),
    ("OR_TYPEID_NIKON_COOLPIX_P7800", 88),
    ("OR_TYPEID_NIKON_Z30", 89),
    ("OR_TYPEID_LEICA_UNKNOWN", 0),
    ("OR_TYPEID_LEICA_DMR", 1),
    ("OR_TYPEID_LEICA_M8", 2),
    ("OR_TYPEID_LEICA_X1", 3),
    ("OR_TYPEID_LEICA_DIGILUX2", 4),
    ("OR_TYPEID_LEICA_DLUX_3", 5),
    ("OR_TYPEID_LEICA_VLUX_1", 6),
    ("OR_TYPEID_LEICA_M9", 7),
    ("OR_TYPEID_LEICA_S2", 8),
    ("OR_TYPEID_LEICA_M_MONOCHROM", 9),
    ("OR_TYPEID_LEICA_X2", 10),
    ("OR_TYPEID_LEICA_M_TYP240", 11),
    ("OR_TYPEID_LEICA_X_VARIO", 12),
    ("OR_TYPEID_LEICA_T_TYP701", 13),
    ("OR_TYPEID_LEICA_Q_TYP116", 14),
    ("OR_TYPEID_LEICA_X_TYP113", 15),
    ("OR_TYPEID_LEICA_M10", 16),
    ("OR_TYPEID_LEICA_SL_TYP601", 17),
    ("OR_TYPEID_LEICA_DLUX_TYP109", 18),
    ("OR_TYPEID_LEICA_VLUX_4", 19),
    ("OR_TYPEID_LEICA_CL", 20),
    ("OR_TYPEID_LEICA_VLUX_TYP114", 21),
    ("OR_TYPEID_LEICA_CLUX", 22),
    ("OR_TYPEID_LEICA_M10P", 23),
    ("OR_TYPEID_LEICA_M10D", 24),
    ("OR_TYPEID_LEICA_TL2", 25),
    ("OR_TYPEID_LEICA_DLUX_5", 26),
    ("OR_TYPEID_LEICA_DLUX_7", 27),
    ("OR_TYPEID_LEICA_C_TYP112", 28),
    ("OR_TYPEID_LEICA_VLUX_5", 29),
    ("OR_TYPEID_LEICA_Q2", 30),
    ("OR_TYPEID_LEICA_SL2", 31),
    ("OR_TYPEID_LEICA_M10_MONOCHROM", 32),
    ("OR_TYPEID_LEICA_M10R", 33),
    ("OR_TYPEID_LEICA_M_MONOCHROM_TYP246", 34),
    ("OR_TYPEID_LEICA_DLUX_4", 35),
    ("OR_TYPEID_LEICA_SL2S", 36),
    ("OR_TYPEID_LEICA_Q2_MONOCHROM", 37),
    ("OR_TYPEID_LEICA_M11", 38),
    ("OR_TYPEID_LEICA_DIGILUX3", 39),
    ("OR_TYPEID_LEICA_DLUX_6", 40),
    ("OR_TYPEID_LEICA_M11_MONOCHROM", 41),
    ("OR_TYPEID_LEICA_Q3", 42),
    ("OR_TYPEID_PENTAX_UNKNOWN", 0),
    ("OR_TYPEID_PENTAX_K10D_PEF", 1),
    ("OR_TYPEID_PENTAX_K10D_DNG", 2),
    ("OR_TYPEID_PENTAX_IST_D_PEF", 3),
    ("OR_TYPEID_PENTAX_IST_DL_PEF", 4),
    ("OR_TYPEID_PENTAX_K100D_PEF", 5),
    ("OR_TYPEID_PENTAX_K100D_SUPER_PEF", 6),
    ("OR_TYPEID_PENTAX_K20D_PEF", 7),
    ("OR_TYPEID_PENTAX_KR_PEF", 8),
    ("OR_TYPEID_PENTAX_KX_PEF", 9),
    ("OR_TYPEID_PENTAX_K5_PEF", 10),
    ("OR_TYPEID_PENTAX_K7_PEF", 11),
    ("OR_TYPEID_PENTAX_645D_PEF", 12),
    ("OR_TYPEID_PENTAX_645D_DNG", 13),
    ("OR_TYPEID_PENTAX_K2000_DNG", 14),
    ("OR_TYPEID_PENTAX_Q_DNG", 15),
    ("OR_TYPEID_PENTAX_K200D_DNG", 16),
    ("OR_TYPEID_PENTAX_KM_PEF", 17),
    ("OR_TYPEID_PENTAX_KX_DNG", 18),
    ("OR_TYPEID_PENTAX_KR_DNG", 19),
    ("OR_TYPEID_PENTAX_K01_DNG", 20),
    ("OR_TYPEID_PENTAX_K30_DNG", 21),
    ("OR_TYPEID_PENTAX_K5_IIS_DNG", 22),
    ("OR_TYPEID_PENTAX_MX1_DNG", 23),
    ("OR_TYPEID_PENTAX_Q10_DNG", 24),
    ("OR_TYPEID_PENTAX_Q7_DNG", 25),
    ("OR_TYPEID_PENTAX_K3_DNG", 26),
    ("OR_TYPEID_PENTAX_K50_DNG", 27),
    ("OR_TYPEID_PENTAX_K500_DNG", 28),
    ("OR_TYPEID_PENTAX_K200D_PEF", 29),
    ("OR_TYPEID_PENTAX_IST_DS_PEF", 30),
    ("OR_TYPEID_PENTAX_K5_IIS_PEF", 31),
    ("OR_TYPEID_PENTAX_K3_II_DNG", 32),
    ("OR_TYPEID_PENTAX_K1_PEF", 33),
    ("OR_TYPEID_PENTAX_K1_DNG", 34),
    ("OR_TYPEID_PENTAX_K70_PEF", 35),
    ("OR_TYPEID_PENTAX_K70_DNG", 36),
    ("OR_TYPEID_PENTAX_KS1_PEF", 37),
    ("OR_TYPEID_PENTAX_KS1_DNG", 38),
    ("OR_TYPEID_PENTAX_KS2_PEF", 39),
    ("OR_TYPEID_PENTAX_KS2_DNG", 40),
    ("OR_TYPEID_PENTAX_QS1_DNG", 41),
    ("OR_TYPEID_PENTAX_QS1_PEF", 42),
    ("OR_TYPEID_PENTAX_KP_PEF", 43),
    ("OR_TYPEID_PENTAX_KP_DNG", 44),
    ("OR_TYPEID_PENTAX_K1_MKII_PEF", 45),
    ("OR_TYPEID_PENTAX_K1_MKII_DNG", 46),
    ("OR_TYPEID_PENTAX_K7_DNG", 47),
    ("OR_TYPEID_PENTAX_IST_DL2_PEF", 48),
    ("OR_TYPEID_PENTAX_K5_II_PEF", 49),
    ("OR_TYPEID_PENTAX_K5_II_DNG", 50),
    ("OR_TYPEID_PENTAX_K3_PEF", 51),
    ("OR_TYPEID_PENTAX_K3_II_PEF", 52),
    ("OR_TYPEID_PENTAX_K110D_PEF", 53),
    ("OR_TYPEID_PENTAX_K3_MKIII_PEF", 54),
    ("OR_TYPEID_PENTAX_K3_MKIII_DNG", 55),
    ("OR_TYPEID_PENTAX_K2000_PEF", 56),
    ("OR_TYPEID_EPSON_UNKNOWN", 0),
    ("OR_TYPEID_EPSON_RD1", 1),
    ("OR_TYPEID_EPSON_RD1S", 2),
    ("OR_TYPEID_EPSON_RD1X", 3),
    ("OR_TYPEID_MINOLTA_UNKNOWN", 0),
    ("OR_TYPEID_MINOLTA_A1", 1),
    ("OR_TYPEID_MINOLTA_A2", 2),
    ("OR_TYPEID_MINOLTA_DIMAGE5", 3),
    ("OR_TYPEID_MINOLTA_DIMAGE7", 4),
    ("OR_TYPEID_MINOLTA_DIMAGE7I", 5),
    ("OR_TYPEID_MINOLTA_DIMAGE7HI", 6),
    ("OR_TYPEID_MINOLTA_MAXXUM_5D", 7),
    ("OR_TYPEID_MINOLTA_MAXXUM_7D", 8),
    ("OR_TYPEID_MINOLTA_A200", 9),
    ("OR_TYPEID_OLYMPUS_UNKNOWN", 0),
    ("OR_TYPEID_OLYMPUS_E1", 1),
    ("OR_TYPEID_OLYMPUS_E10", 2),
    ("OR_TYPEID_OLYMPUS_E3", 3),
    ("OR_TYPEID_OLYMPUS_E300", 4),
    ("OR_TYPEID_OLYMPUS_E330", 5),
    ("OR_TYPEID_OLYMPUS_E400", 6),
    ("OR_TYPEID_OLYMPUS_E410", 7),
    ("OR_TYPEID_OLYMPUS_E500", 8),
    ("OR_TYPEID_OLYMPUS_E510", 9),
    ("OR_TYPEID_OLYMPUS_SP350", 10),
    ("OR_TYPEID_OLYMPUS_SP510UZ", 11),
    ("OR_TYPEID_OLYMPUS_SP550UZ", 12),
    ("OR_TYPEID_OLYMPUS_SP500UZ", 13),
    ("OR_TYPEID_OLYMPUS_EP1", 14),
    ("OR_TYPEID_OLYMPUS_E620", 15),
    ("OR_TYPEID_OLYMPUS_EPL1", 16),
    ("OR_TYPEID_OLYMPUS_EP2", 17),
    ("OR_TYPEID_OLYMPUS_XZ1", 18),
    ("OR_TYPEID_OLYMPUS_E5", 19),
    ("OR_TYPEID_OLYMPUS_EPL2", 20),
    ("OR_TYPEID_OLYMPUS_EP3", 21),
    ("OR_TYPEID_OLYMPUS_EPL3", 22),
    ("OR_TYPEID_OLYMPUS_EPM1", 23),
    ("OR_TYPEID_OLYMPUS_EM5", 24),
    ("OR_TYPEID_OLYMPUS_XZ2", 25),
    ("OR_TYPEID_OLYMPUS_EPM2", 26),
    ("OR_TYPEID_OLYMPUS_EPL5", 27),
    ("OR_TYPEID_OLYMPUS_EM1", 28),
    ("OR_TYPEID_OLYMPUS_STYLUS1", 29),
    ("OR_TYPEID_OLYMPUS_EPL6", 30),
    ("OR_TYPEID_OLYMPUS_EPL7", 31),
    ("OR_TYPEID_OLYMPUS_EM5II", 32),
    ("OR_TYPEID_OLYMPUS_EM1II", 33),
    ("OR_TYPEID_OLYMPUS_PEN_F", 34),
    ("OR_TYPEID_OLYMPUS_EM10", 35),
    ("OR_TYPEID_OLYMPUS_EM10II", 36),
    ("OR_TYPEID_OLYMPUS_EPL8", 37),
    ("OR_TYPEID_OLYMPUS_SH2", 38),
    ("OR_TYPEID_OLYMPUS_XZ10", 39),
    ("OR_TYPEID_OLYMPUS_TG4", 40),
    ("OR_TYPEID_OLYMPUS_EPL9", 41),
    ("OR_TYPEID_OLYMPUS_STYLUS1_1S", 42),
    ("OR_TYPEID_OLYMPUS_EM10III", 43),
    ("OR_TYPEID_OLYMPUS_TG5", 44),
    ("OR_TYPEID_OLYMPUS_EM1X", 45),
    ("OR_TYPEID_OLYMPUS_TG6", 46),
    ("OR_TYPEID_OLYMPUS_EM5III", 47),
    ("OR_TYPEID_OLYMPUS_SP565UZ", 48),
    ("OR_TYPEID_OLYMPUS_EPL10", 49),
    ("OR_TYPEID_OLYMPUS_EM1III", 50),
    ("OR_TYPEID_OLYMPUS_EM10IV", 51),
    ("OR_TYPEID_OLYMPUS_EM10IIIS", 52),
    ("OR_TYPEID_OLYMPUS_OM1", 53),
    ("OR_TYPEID_OLYMPUS_E30", 54),
    ("OR_TYPEID_OLYMPUS_EP5", 55),
    ("OR_TYPEID_OLYMPUS_E420", 56),
    ("OR_TYPEID_OLYMPUS_E450", 57),
    ("OR_TYPEID_OLYMPUS_E520", 58),
    ("OR_TYPEID_OLYMPUS_E600", 59),
    ("OR_TYPEID_OLYMPUS_C5060WZ", 60),
    ("OR_TYPEID_OLYMPUS_SP570UZ", 61),
    ("OR_TYPEID_OLYMPUS_EP7", 62),
    ("OR_TYPEID_OLYMPUS_OM5", 63),
    ("OR_TYPEID_SAMSUNG_UNKNOWN", 0),
    ("OR_TYPEID_SAMSUNG_GX10", 1),
    ("OR_TYPEID_SAMSUNG_PRO815", 2),
    ("OR_TYPEID_RICOH_UNKNOWN", 0),
    ("OR_TYPEID_RICOH_GR2", 1),
    ("OR_TYPEID_RICOH_GXR", 2),
    ("OR_TYPEID_RICOH_GXR_A16", 3),
    ("OR_TYPEID_RICOH_GR", 4),
    ("OR_TYPEID_RICOH_GX200", 5),
    ("OR_TYPEID_PENTAX_645Z_PEF", 6),
    ("OR_TYPEID_PENTAX_645Z_DNG", 7),
    ("OR_TYPEID_RICOH_GRII", 8),
    ("OR_TYPEID_RICOH_GRIII", 9),
    ("OR_TYPEID_RICOH_GRIIIX", 10),
    ("OR_TYPEID_SONY_UNKNOWN", 0),
    ("OR_TYPEID_SONY_A100", 1),
    ("OR_TYPEID_SONY_A200", 2),
    ("OR_TYPEID_SONY_A700", 3),
    ("OR_TYPEID_SONY_A550", 4),
    ("OR_TYPEID_SONY_A380", 5),
    ("OR_TYPEID_SONY_A390", 5),
    ("OR_TYPEID_SONY_SLTA55", 7),
    ("OR_TYPEID_SONY_SLTA77", 8),
    ("OR_TYPEID_SONY_NEX3", 9),
    ("OR_TYPEID_SONY_NEX3N", 10),
    ("OR_TYPEID_SONY_NEX5", 11),
    ("OR_TYPEID_SONY_NEX5N", 12),
    ("OR_TYPEID_SONY_NEX5R", 13),
    ("OR_TYPEID_SONY_NEX5T", 14),
    ("OR_TYPEID_SONY_NEX6", 15),
    ("OR_TYPEID_SONY_NEX7", 16),
    ("OR_TYPEID_SONY_NEXC3", 17),
    ("OR_TYPEID_SONY_NEXF3", 18),
    ("OR_TYPEID_SONY_SLTA65", 19),
    ("OR_TYPEID_SONY_A330", 21),
    ("OR_TYPEID_SONY_A450", 22),
    ("OR_TYPEID_SONY_A580", 23),
    ("OR_TYPEID_SONY_A850", 24),
    ("OR_TYPEID_SONY_A900", 25),
    ("OR_TYPEID_SONY_SLTA35", 26),
    ("OR_TYPEID_SONY_SLTA33", 27),
    ("OR_TYPEID_SONY_A560", 28),
    ("OR_TYPEID_SONY_SLTA99", 29),
    ("OR_TYPEID_SONY_RX100", 30),
    ("OR_TYPEID_SONY_RX100M2", 31),
    ("OR_TYPEID_SONY_RX100M3", 32),
    ("OR_TYPEID_SONY_RX100M4", 33),
    ("OR_TYPEID_SONY_RX100M5", 34),
    ("OR_TYPEID_SONY_RX100M6", 35),
    ("OR_TYPEID_SONY_RX1", 36),
    ("OR_TYPEID_SONY_RX1R", 37),
    ("OR_TYPEID_SONY_RX10", 38),
    ("OR_TYPEID_SONY_RX10M2", 39),
    ("OR_TYPEID_SONY_RX10M3", 40),
    ("OR_TYPEID_SONY_RX1RM2", 41),
    ("OR_TYPEID_SONY_RX10M4", 42),
    ("OR_TYPEID_SONY_RX0", 43),
    ("OR_TYPEID_SONY_SLTA57", 44),
    ("OR_TYPEID_SONY_ILCE7", 45),
    ("OR_TYPEID_SONY_ILCE7M2", 46),
    ("OR_TYPEID_SONY_ILCE7M3", 47),
    ("OR_TYPEID_SONY_ILCE7R", 48),
    ("OR_TYPEID_SONY_ILCE7RM2", 49),
    ("OR_TYPEID_SONY_ILCE7RM3", 50),
    ("OR_TYPEID_SONY_ILCE7S", 51),
    ("OR_TYPEID_SONY_ILCE7SM2", 52),
    ("OR_TYPEID_SONY_ILCE9", 53),
    ("OR_TYPEID_SONY_ILCE3000", 54),
    ("OR_TYPEID_SONY_ILCE3500", 54),
    ("OR_TYPEID_SONY_SLTA58", 55),
    ("OR_TYPEID_SONY_ILCE6000", 56),
    ("OR_TYPEID_SONY_ILCA99M2", 57),
    ("OR_TYPEID_SONY_ILCE6300", 58),
    ("OR_TYPEID_SONY_ILCE6500", 59),
    ("OR_TYPEID_SONY_ILCE5100", 60),
    ("OR_TYPEID_SONY_A230", 61),
    ("OR_TYPEID_SONY_A500", 62),
    ("OR_TYPEID_SONY_SLTA37", 63),
    ("OR_TYPEID_SONY_ILCA77M2", 64),
    ("OR_TYPEID_SONY_ILCA68", 65),
    ("OR_TYPEID_SONY_ILCE5000", 66),
    ("OR_TYPEID_SONY_A290", 67),
    ("OR_TYPEID_SONY_RX100M5A", 68),
    ("OR_TYPEID_SONY_HX99", 69),
    ("OR_TYPEID_SONY_ILCE6400", 70),
    ("OR_TYPEID_SONY_RX0M2", 71),
    ("OR_TYPEID_SONY_ILCE7RM4", 72),
    ("OR_TYPEID_SONY_RX100M7", 73),
    ("OR_TYPEID_SONY_ILCE6100", 74),
    ("OR_TYPEID_SONY_ILCE6600", 75),
    ("OR_TYPEID_SONY_ILCE9M2", 76),
    ("OR_TYPEID_SONY_ZV1", 77),
    ("OR_TYPEID_SONY_R1", 78),
    ("OR_TYPEID_SONY_ILCE7SM3", 79),
    ("OR_TYPEID_SONY_ILCE7C", 80),
    ("OR_TYPEID_SONY_ZVE10", 81),
    ("OR_TYPEID_SONY_ILCE1", 82),
    ("OR_TYPEID_SONY_ILCE7M4", 83),
    ("OR_TYPEID_SONY_ILCEQX1", 84),
    ("OR_TYPEID_SONY_A350", 85),
    ("OR_TYPEID_SONY_A300", 86),
    ("OR_TYPEID_SONY_ILCE7RM3A", 87),
    ("OR_TYPEID_SONY_ILCE7RM4A", 88),
    ("OR_TYPEID_SONY_HX95", 89),
    ("OR_TYPEID_SONY_ILCE7RM5", 90),
    ("OR_TYPEID_SONY_ZVE1", 91),
    ("OR_TYPEID_SONY_ILME_FX30", 92),
    ("OR_TYPEID_PANASONIC_UNKNOWN", 0),
    ("OR_TYPEID_PANASONIC_GF1", 1),
    ("OR_TYPEID_PANASONIC_GF2", 2),
    ("OR_TYPEID_PANASONIC_FZ30", 3),
    ("OR_TYPEID_PANASONIC_G10", 4),
    ("OR_TYPEID_PANASONIC_GH1", 5),
    ("OR_TYPEID_PANASONIC_GH2", 6),
    ("OR_TYPEID_PANASONIC_LX2", 7),
    ("OR_TYPEID_PANASONIC_LX3", 8),
    ("OR_TYPEID_PANASONIC_LX5", 9),
    ("OR_TYPEID_PANASONIC_FZ8", 10),
    ("OR_TYPEID_PANASONIC_FZ18", 11),
    ("OR_TYPEID_PANASONIC_FZ50", 12),
    ("OR_TYPEID_PANASONIC_L1", 13),
    ("OR_TYPEID_PANASONIC_G1", 14),
    ("OR_TYPEID_PANASONIC_G2", 15),
    ("OR_TYPEID_PANASONIC_L10", 16),
    ("OR_TYPEID_PANASONIC_FZ28", 17),
    ("OR_TYPEID_PANASONIC_GF3", 18),
    ("OR_TYPEID_PANASONIC_FZ100", 19),
    ("OR_TYPEID_PANASONIC_GX1", 20),
    ("OR_TYPEID_PANASONIC_G3", 21),
    ("OR_TYPEID_PANASONIC_G5", 22),
    ("OR_TYPEID_PANASONIC_GF5", 23),
    ("OR_TYPEID_PANASONIC_LX7", 24),
    ("OR_TYPEID_PANASONIC_GH3", 25),
    ("OR_TYPEID_PANASONIC_FZ200", 26),
    ("OR_TYPEID_PANASONIC_GF6", 27),
    ("OR_TYPEID_PANASONIC_GX7", 28),
    ("OR_TYPEID_PANASONIC_GM1", 29),
    ("OR_TYPEID_PANASONIC_GM1S", 29),
    ("OR_TYPEID_PANASONIC_GH4", 30),
    ("OR_TYPEID_PANASONIC_LX100", 31),
    ("OR_TYPEID_PANASONIC_GM5", 32),
    ("OR_TYPEID_PANASONIC_G80", 33),
    ("OR_TYPEID_PANASONIC_G85", 33),
    ("OR_TYPEID_PANASONIC_LX10", 34),
    ("OR_TYPEID_PANASONIC_LX15", 34),
    ("OR_TYPEID_PANASONIC_FZ2500", 35),
    ("OR_TYPEID_PANASONIC_FZ2000", 35),
    ("OR_TYPEID_PANASONIC_GX8", 36),
    ("OR_TYPEID_PANASONIC_ZS100", 37),
    ("OR_TYPEID_PANASONIC_TX1", 37),
    ("OR_TYPEID_PANASONIC_TZ100", 37),
    ("OR_TYPEID_PANASONIC_TZ101", 37),
    ("OR_TYPEID_PANASONIC_TZ110", 37),
    ("OR_TYPEID_PANASONIC_GX80", 38),
    ("OR_TYPEID_PANASONIC_GX85", 38),
    ("OR_TYPEID_PANASONIC_GH5", 39),
    ("OR_TYPEID_PANASONIC_GX850", 40),
    ("OR_TYPEID_PANASONIC_FZ80", 41),
    ("OR_TYPEID_PANASONIC_FZ82", 41),
    ("OR_TYPEID_PANASONIC_FZ330", 42),
    ("OR_TYPEID_PANASONIC_TZ70", 43),
    ("OR_TYPEID_PANASONIC_ZS60", 44),
    ("OR_TYPEID_PANASONIC_TZ80", 44),
    ("OR_TYPEID_PANASONIC_TZ81", 44),
    ("OR_TYPEID_PANASONIC_GF7", 46),
    ("OR_TYPEID_PANASONIC_CM1", 47),
    ("OR_TYPEID_PANASONIC_GX9", 48),
    ("OR_TYPEID_PANASONIC_GX7MK3", 48),
    ("OR_TYPEID_PANASONIC_GX800", 49),
    ("OR_TYPEID_PANASONIC_G9", 52),
    ("OR_TYPEID_PANASONIC_DC_FZ45", 53),
    ("OR_TYPEID_PANASONIC_GH5S", 54),
    ("OR_TYPEID_PANASONIC_LX1", 55),
    ("OR_TYPEID_PANASONIC_FZ150", 56),
    ("OR_TYPEID_PANASONIC_FZ35", 57),
    ("OR_TYPEID_PANASONIC_FZ38", 57),
    ("OR_TYPEID_PANASONIC_ZS200", 58),
    ("OR_TYPEID_PANASONIC_TX2", 58),
    ("OR_TYPEID_PANASONIC_TZ202", 58),
    ("OR_TYPEID_PANASONIC_GX7MK2", 59),
    ("OR_TYPEID_PANASONIC_LX100M2", 60),
    ("OR_TYPEID_PANASONIC_DMC_FZ40", 61),
    ("OR_TYPEID_PANASONIC_DMC_FZ45", 61),
    ("OR_TYPEID_PANASONIC_DC_S1", 62),
    ("OR_TYPEID_PANASONIC_DC_S1R", 63),
    ("OR_TYPEID_PANASONIC_DC_G95", 64),
    ("OR_TYPEID_PANASONIC_DMC_FZ1000", 65),
    ("OR_TYPEID_PANASONIC_DC_FZ1000M2", 66),
    ("OR_TYPEID_PANASONIC_DC_ZS80", 67),
    ("OR_TYPEID_PANASONIC_DC_TZ95", 67),
    ("OR_TYPEID_PANASONIC_DC_TZ96", 67),
    ("OR_TYPEID_PANASONIC_GF10", 68),
    ("OR_TYPEID_PANASONIC_GX880", 68),
    ("OR_TYPEID_PANASONIC_DC_G99", 69),
    ("OR_TYPEID_PANASONIC_DC_G90", 69),
    ("OR_TYPEID_PANASONIC_DC_G91", 69),
    ("OR_TYPEID_PANASONIC_DC_G95D", 69),
    ("OR_TYPEID_PANASONIC_DC_S1H", 70),
    ("OR_TYPEID_PANASONIC_DC_G100", 71),
    ("OR_TYPEID_PANASONIC_DC_G110", 71),
    ("OR_TYPEID_PANASONIC_DC_S5", 72),
    ("OR_TYPEID_PANASONIC_GH5M2", 73),
    ("OR_TYPEID_PANASONIC_GH6", 74),
    ("OR_TYPEID_PANASONIC_G7", 75),
    ("OR_TYPEID_PANASONIC_G70", 75),
    ("OR_TYPEID_PANASONIC_ZS40", 76),
    ("OR_TYPEID_PANASONIC_TZ60", 76),
    ("OR_TYPEID_PANASONIC_TZ61", 76),
    ("OR_TYPEID_PANASONIC_G6", 77),
    ("OR_TYPEID_PANASONIC_G8", 78),
    ("OR_TYPEID_PANASONIC_G81", 78),
    ("OR_TYPEID_PANASONIC_LF1", 79),
    ("OR_TYPEID_PANASONIC_FZ300", 80),
    ("OR_TYPEID_PANASONIC_FZ70", 81),
    ("OR_TYPEID_PANASONIC_FZ72", 81),
    ("OR_TYPEID_PANASONIC_ZS50", 82),
    ("OR_TYPEID_PANASONIC_TZ71", 82),
    ("OR_TYPEID_PANASONIC_ZS70", 83),
    ("OR_TYPEID_PANASONIC_TZ90", 83),
    ("OR_TYPEID_PANASONIC_DC_S5M2", 84),
    ("OR_TYPEID_PANASONIC_GF8", 85),
    ("OR_TYPEID_FUJIFILM_UNKNOWN", 0),
    ("OR_TYPEID_FUJIFILM_F700", 1),
    ("OR_TYPEID_FUJIFILM_E900", 2),
    ("OR_TYPEID_FUJIFILM_S2PRO", 3),
    ("OR_TYPEID_FUJIFILM_S3PRO", 4),
    ("OR_TYPEID_FUJIFILM_S5PRO", 5),
    ("OR_TYPEID_FUJIFILM_F810", 6),
    ("OR_TYPEID_FUJIFILM_S5000", 7),
    ("OR_TYPEID_FUJIFILM_S5600", 8),
    ("OR_TYPEID_FUJIFILM_S9500", 9),
    ("OR_TYPEID_FUJIFILM_S6500FD", 10),
    ("OR_TYPEID_FUJIFILM_HS10", 11),
    ("OR_TYPEID_FUJIFILM_HS30EXR", 12),
    ("OR_TYPEID_FUJIFILM_HS33EXR", 12),
    ("OR_TYPEID_FUJIFILM_S200EXR", 13),
    ("OR_TYPEID_FUJIFILM_X100", 14),
    ("OR_TYPEID_FUJIFILM_X100S", 15),
    ("OR_TYPEID_FUJIFILM_X100T", 16),
    ("OR_TYPEID_FUJIFILM_X100F", 17),
    ("OR_TYPEID_FUJIFILM_X10", 18),
    ("OR_TYPEID_FUJIFILM_X20", 19),
    ("OR_TYPEID_FUJIFILM_X30", 20),
    ("OR_TYPEID_FUJIFILM_X70", 21),
    ("OR_TYPEID_FUJIFILM_XPRO1", 22),
    ("OR_TYPEID_FUJIFILM_XPRO2", 23),
    ("OR_TYPEID_FUJIFILM_XS1", 24),
    ("OR_TYPEID_FUJIFILM_XE1", 25),
    ("OR_TYPEID_FUJIFILM_XE2", 26),
    ("OR_TYPEID_FUJIFILM_XE2S", 27),
    ("OR_TYPEID_FUJIFILM_XE3", 28),
    ("OR_TYPEID_FUJIFILM_XF1", 29),
    ("OR_TYPEID_FUJIFILM_XM1", 30),
    ("OR_TYPEID_FUJIFILM_XT1", 31),
    ("OR_TYPEID_FUJIFILM_XT10", 32),
    ("OR_TYPEID_FUJIFILM_XT100", 33),
    ("OR_TYPEID_FUJIFILM_XT2", 34),
    ("OR_TYPEID_FUJIFILM_XT20", 35),
    ("OR_TYPEID_FUJIFILM_XT3", 36),
    ("OR_TYPEID_FUJIFILM_XA1", 37),
    ("OR_TYPEID_FUJIFILM_XA2", 38),
    ("OR_TYPEID_FUJIFILM_XA3", 39),
    ("OR_TYPEID_FUJIFILM_XA5", 40),
    ("OR_TYPEID_FUJIFILM_XQ1", 41),
    ("OR_TYPEID_FUJIFILM_XQ2", 42),
    ("OR_TYPEID_FUJIFILM_XH1", 43),
    ("OR_TYPEID_FUJIFILM_GFX50S", 44),
    ("OR_TYPEID_FUJIFILM_GFX50R", 45),
    ("OR_TYPEID_FUJIFILM_XF10", 46),
    ("OR_TYPEID_FUJIFILM_XT30", 47),
    ("OR_TYPEID_FUJIFILM_GFX100", 48),
    ("OR_TYPEID_FUJIFILM_XA7", 49),
    ("OR_TYPEID_FUJIFILM_XPRO3", 50),
    ("OR_TYPEID_FUJIFILM_XT200", 51),
    ("OR_TYPEID_FUJIFILM_X100V", 52),
    ("OR_TYPEID_FUJIFILM_XT4", 53),
    ("OR_TYPEID_FUJIFILM_F550EXR", 54),
    ("OR_TYPEID_FUJIFILM_S100FS", 55),
    ("OR_TYPEID_FUJIFILM_XS10", 56),
    ("OR_TYPEID_FUJIFILM_XT30_II", 57),
    ("OR_TYPEID_FUJIFILM_GFX50S_II", 58),
    ("OR_TYPEID_FUJIFILM_GFX100S", 59),
    ("OR_TYPEID_FUJIFILM_XE4", 60),
    ("OR_TYPEID_FUJIFILM_XA10", 61),
    ("OR_TYPEID_FUJIFILM_XH2S", 62),
    ("OR_TYPEID_FUJIFILM_XH2", 63),
    ("OR_TYPEID_FUJIFILM_XT5", 64),
    ("OR_TYPEID_FUJIFILM_HS50EXR", 65),
    ("OR_TYPEID_FUJIFILM_S6000FD", 66),
    ("OR_TYPEID_FUJIFILM_SL1000", 67),
    ("OR_TYPEID_BLACKMAGIC_UNKNOWN", 0),
    ("OR_TYPEID_BLACKMAGIC_POCKET_CINEMA", 1),
    ("OR_TYPEID_XIAOYI_UNKNOWN", 0),
    ("OR_TYPEID_XIAOYI_M1", 1),
    ("OR_TYPEID_XIAOYI_YDXJ_2", 2),
    ("OR_TYPEID_XIAOYI_YIAC_3", 3),
    ("OR_TYPEID_APPLE_UNKNOWN", 0),
    ("OR_TYPEID_APPLE_IPHONE_6SPLUS", 1),
    ("OR_TYPEID_APPLE_IPHONE_7PLUS", 2),
    ("OR_TYPEID_APPLE_IPHONE_SE", 3),
    ("OR_TYPEID_APPLE_IPHONE_8", 4),
    ("OR_TYPEID_APPLE_IPHONE_XS", 5),
    ("OR_TYPEID_APPLE_IPHONE_12_PRO", 6),
    ("OR_TYPEID_APPLE_IPHONE_13_PRO", 7),
    ("OR_TYPEID_SIGMA_UNKNOWN", 0),
    ("OR_TYPEID_SIGMA_FP", 1),
    ("OR_TYPEID_SIGMA_FP_L", 2),
    ("OR_TYPEID_GOPRO_UNKNOWN", 0),
    ("OR_TYPEID_GOPRO_HERO5_BLACK", 1),
    ("OR_TYPEID_GOPRO_HERO6_BLACK", 2),
    ("OR_TYPEID_GOPRO_HERO7_BLACK", 3),
    ("OR_TYPEID_GOPRO_HERO8_BLACK", 4),
    ("OR_TYPEID_GOPRO_HERO9_BLACK", 5),
    ("OR_TYPEID_GOPRO_HERO10_BLACK", 6),
    ("OR_TYPEID_HASSELBLAD_UNKNOWN", 0),
    ("OR_TYPEID_HASSELBLAD_LUNAR", 1),
    ("OR_TYPEID_HASSELBLAD_L1D_20C", 2),
    ("OR_TYPEID_HASSELBLAD_L2D_20C", 3),
    ("OR_TYPEID_ZEISS_UNKNOWN", 0),
    ("OR_TYPEID_ZEISS_ZX1", 1),
    ("OR_TYPEID_DJI_UNKNOWN", 0),
    ("OR_TYPEID_DJI_FC350", 1),
    ("OR_TYPEID_DJI_FC7303", 2),
    ("OR_TYPEID_DJI_OSMO_ACTION", 3),
    ("OR_TYPEID_DJI_FC220", 4),
    ("OR_TYPEID_DJI_FC6310", 5),
    ("OR_TYPEID_DJI_FC3582", 6),
];
