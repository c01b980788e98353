"""Bird & Riordan 1984 table: wavelength, extraterrestrial spectrum, water vapour, ozone, mixed gas absorption
(copied from the pinned tree)."""
TABLE = [
    (300.0, 0.5359, 0.0, 10.0, 0.0),
    (305.0, 0.5583, 0.0, 4.8, 0.0),
    (310.0, 0.622, 0.0, 2.7, 0.0),
    (315.0, 0.6927, 0.0, 1.35, 0.0),
    (320.0, 0.7151, 0.0, 0.8, 0.0),
    (325.0, 0.8329, 0.0, 0.38, 0.0),
    (330.0, 0.9619, 0.0, 0.16, 0.0),
    (335.0, 0.9319, 0.0, 0.075, 0.0),
    (340.0, 0.9006, 0.0, 0.04, 0.0),
    (345.0, 0.9113, 0.0, 0.019, 0.0),
    (350.0, 0.9755, 0.0, 0.007, 0.0),
    (360.0, 0.9759, 0.0, 0.0, 0.0),
    (370.0, 1.1199, 0.0, 0.0, 0.0),
    (380.0, 1.1038, 0.0, 0.0, 0.0),
    (390.0, 1.0338, 0.0, 0.0, 0.0),
    (400.0, 1.4791, 0.0, 0.0, 0.0),
    (410.0, 1.7013, 0.0, 0.0, 0.0),
    (420.0, 1.7404, 0.0, 0.0, 0.0),
    (430.0, 1.5872, 0.0, 0.0, 0.0),
    (440.0, 1.837, 0.0, 0.0, 0.0),
    (450.0, 2.005, 0.0, 0.003, 0.0),
    (460.0, 2.043, 0.0, 0.006, 0.0),
    (470.0, 1.987, 0.0, 0.009, 0.0),
    (480.0, 2.027, 0.0, 0.014, 0.0),
    (490.0, 1.896, 0.0, 0.021, 0.0),
    (500.0, 1.909, 0.0, 0.03, 0.0),
    (510.0, 1.927, 0.0, 0.04, 0.0),
    (520.0, 1.831, 0.0, 0.048, 0.0),
    (530.0, 1.891, 0.0, 0.063, 0.0),
    (540.0, 1.898, 0.0, 0.075, 0.0),
    (550.0, 1.892, 0.0, 0.085, 0.0),
    (570.0, 1.84, 0.0, 0.12, 0.0),
    (593.0, 1.768, 0.075, 0.119, 0.0),
    (610.0, 1.728, 0.0, 0.12, 0.0),
    (630.0, 1.658, 0.0, 0.09, 0.0),
    (656.0, 1.524, 0.0, 0.065, 0.0),
    (667.6, 1.531, 0.0, 0.051, 0.0),
    (690.0, 1.42, 0.016, 0.028, 0.15),
    (710.0, 1.399, 0.0125, 0.018, 0.0),
    (718.0, 1.374, 1.8, 0.015, 0.0),
    (724.4, 1.373, 2.5, 0.012, 0.0),
    (740.0, 1.298, 0.061, 0.01, 0.0),
    (752.5, 1.269, 0.0008, 0.008, 0.0),
    (757.5, 1.245, 0.0001, 0.007, 0.0),
    (762.5, 1.223, 1e-05, 0.006, 4.0),
    (767.5, 1.205, 1e-05, 0.005, 0.35),
    (780.0, 1.183, 0.0006, 0.0, 0.0),
    (800.0, 1.148, 0.036, 0.0, 0.0),
    (816.0, 1.091, 1.6, 0.0, 0.0),
    (823.7, 1.062, 2.5, 0.0, 0.0),
    (831.5, 1.038, 0.5, 0.0, 0.0),
    (840.0, 1.022, 0.155, 0.0, 0.0),
    (860.0, 0.9987, 1e-05, 0.0, 0.0),
    (880.0, 0.9472, 0.0026, 0.0, 0.0),
    (905.0, 0.8932, 7.0, 0.0, 0.0),
    (915.0, 0.8682, 5.0, 0.0, 0.0),
    (925.0, 0.8297, 5.0, 0.0, 0.0),
    (930.0, 0.8303, 27.0, 0.0, 0.0),
    (937.0, 0.814, 55.0, 0.0, 0.0),
    (948.0, 0.7869, 45.0, 0.0, 0.0),
    (965.0, 0.7683, 4.0, 0.0, 0.0),
    (980.0, 0.767, 1.48, 0.0, 0.0),
    (993.5, 0.7576, 0.1, 0.0, 0.0),
    (1040.0, 0.6881, 1e-05, 0.0, 0.0),
    (1070.0, 0.6407, 0.001, 0.0, 0.0),
    (1100.0, 0.6062, 3.2, 0.0, 0.0),
    (1120.0, 0.5859, 115.0, 0.0, 0.0),
    (1130.0, 0.5702, 70.0, 0.0, 0.0),
    (1145.0, 0.5641, 75.0, 0.0, 0.0),
    (1161.0, 0.5442, 10.0, 0.0, 0.0),
    (1170.0, 0.5334, 5.0, 0.0, 0.0),
    (1200.0, 0.5016, 2.0, 0.0, 0.0),
    (1240.0, 0.4775, 0.002, 0.0, 0.05),
    (1270.0, 0.4427, 0.002, 0.0, 0.3),
    (1290.0, 0.44, 0.1, 0.0, 0.02),
    (1320.0, 0.4168, 4.0, 0.0, 0.0002),
    (1350.0, 0.3914, 200.0, 0.0, 0.00011),
    (1395.0, 0.3589, 1000.0, 0.0, 1e-05),
    (1442.5, 0.3275, 185.0, 0.0, 0.05),
    (1462.5, 0.3175, 80.0, 0.0, 0.011),
    (1477.0, 0.3073, 80.0, 0.0, 0.005),
    (1497.0, 0.3004, 12.0, 0.0, 0.0006),
    (1520.0, 0.2928, 0.16, 0.0, 0.0),
    (1539.0, 0.2755, 0.002, 0.0, 0.005),
    (1558.0, 0.2721, 0.0005, 0.0, 0.13),
    (1578.0, 0.2593, 0.0001, 0.0, 0.04),
    (1592.0, 0.2469, 1e-05, 0.0, 0.06),
    (1610.0, 0.244, 0.0001, 0.0, 0.13),
    (1630.0, 0.2435, 0.001, 0.0, 0.001),
    (1646.0, 0.2348, 0.01, 0.0, 0.0014),
    (1678.0, 0.2205, 0.036, 0.0, 0.0001),
    (1740.0, 0.1908, 1.1, 0.0, 1e-05),
    (1800.0, 0.1711, 130.0, 0.0, 1e-05),
    (1860.0, 0.1445, 1000.0, 0.0, 0.0001),
    (1920.0, 0.1357, 500.0, 0.0, 0.001),
    (1960.0, 0.123, 100.0, 0.0, 4.3),
    (1985.0, 0.1238, 4.0, 0.0, 0.2),
    (2005.0, 0.113, 2.9, 0.0, 21.0),
    (2035.0, 0.1085, 1.0, 0.0, 0.13),
    (2065.0, 0.0975, 0.4, 0.0, 1.0),
    (2100.0, 0.0924, 0.22, 0.0, 0.08),
    (2148.0, 0.0824, 0.25, 0.0, 0.001),
    (2198.0, 0.0746, 0.33, 0.0, 0.00038),
    (2270.0, 0.0683, 0.5, 0.0, 0.001),
    (2360.0, 0.0638, 4.0, 0.0, 0.0005),
    (2450.0, 0.0495, 80.0, 0.0, 0.00015),
    (2500.0, 0.0485, 310.0, 0.0, 0.00014),
    (2600.0, 0.0386, 15000.0, 0.0, 0.00066),
    (2700.0, 0.0366, 22000.0, 0.0, 100.0),
    (2800.0, 0.032, 8000.0, 0.0, 150.0),
    (2900.0, 0.0281, 650.0, 0.0, 0.13),
    (3000.0, 0.0248, 240.0, 0.0, 0.0095),
    (3100.0, 0.0221, 230.0, 0.0, 0.001),
    (3200.0, 0.0196, 100.0, 0.0, 0.8),
    (3300.0, 0.0175, 120.0, 0.0, 1.9),
    (3400.0, 0.0157, 19.5, 0.0, 1.3),
    (3500.0, 0.0141, 3.6, 0.0, 0.075),
    (3600.0, 0.0127, 3.1, 0.0, 0.01),
    (3700.0, 0.0115, 2.5, 0.0, 0.00195),
    (3800.0, 0.0104, 1.4, 0.0, 0.004),
    (3900.0, 0.0095, 0.17, 0.0, 0.29),
    (4000.0, 0.0086, 0.0045, 0.0, 0.025),
]
