/* mathematical reference values, generated: round(2^20 * 2^(k/N)) etc. */
static const unsigned int REF_CENT[1200] = {1048576,1049182,1049788,1050395,1051002,1051609,1052216,1052824,1053433,1054041,1054650,1055260,1055869,1056479,1057090,1057701,1058312,1058923,1059535,1060147,1060760,1061373,1061986,1062600,1063214,1063828,1064443,1065058,1065673,1066289,1066905,1067521,1068138,1068755,1069373,1069991,1070609,1071227,1071846,1072466,1073085,1073705,1074326,1074946,1075568,1076189,1076811,1077433,1078055,1078678,1079302,1079925,1080549,1081174,1081798,1082423,1083049,1083674,1084301,1084927,1085554,1086181,1086809,1087437,1088065,1088694,1089323,1089952,1090582,1091212,1091843,1092473,1093105,1093736,1094368,1095000,1095633,1096266,1096900,1097533,1098167,1098802,1099437,1100072,1100708,1101344,1101980,1102617,1103254,1103891,1104529,1105167,1105806,1106445,1107084,1107724,1108364,1109004,1109645,1110286,1110928,1111569,1112212,1112854,1113497,1114141,1114784,1115429,1116073,1116718,1117363,1118009,1118655,1119301,1119948,1120595,1121242,1121890,1122538,1123187,1123836,1124485,1125135,1125785,1126436,1127086,1127738,1128389,1129041,1129694,1130346,1130999,1131653,1132307,1132961,1133616,1134271,1134926,1135582,1136238,1136894,1137551,1138208,1138866,1139524,1140183,1140841,1141500,1142160,1142820,1143480,1144141,1144802,1145463,1146125,1146788,1147450,1148113,1148776,1149440,1150104,1150769,1151434,1152099,1152765,1153431,1154097,1154764,1155431,1156099,1156767,1157435,1158104,1158773,1159443,1160113,1160783,1161454,1162125,1162796,1163468,1164140,1164813,1165486,1166159,1166833,1167507,1168182,1168857,1169532,1170208,1170884,1171560,1172237,1172915,1173592,1174270,1174949,1175628,1176307,1176987,1177667,1178347,1179028,1179709,1180391,1181073,1181755,1182438,1183121,1183805,1184489,1185173,1185858,1186543,1187229,1187915,1188601,1189288,1189975,1190663,1191351,1192039,1192728,1193417,1194106,1194796,1195487,1196177,1196869,1197560,1198252,1198944,1199637,1200330,1201024,1201718,1202412,1203107,1203802,1204498,1205193,1205890,1206587,1207284,1207981,1208679,1209378,1210076,1210776,1211475,1212175,1212875,1213576,1214277,1214979,1215681,1216383,1217086,1217789,1218493,1219197,1219902,1220606,1221312,1222017,1222723,1223430,1224137,1224844,1225552,1226260,1226968,1227677,1228387,1229096,1229807,1230517,1231228,1231940,1232651,1233364,1234076,1234789,1235503,1236217,1236931,1237645,1238361,1239076,1239792,1240508,1241225,1241942,1242660,1243378,1244096,1244815,1245534,1246254,1246974,1247695,1248415,1249137,1249858,1250581,1251303,1252026,1252750,1253473,1254198,1254922,1255647,1256373,1257099,1257825,1258552,1259279,1260007,1260735,1261463,1262192,1262921,1263651,1264381,1265112,1265843,1266574,1267306,1268038,1268771,1269504,1270237,1270971,1271706,1272440,1273176,1273911,1274647,1275384,1276121,1276858,1277596,1278334,1279073,1279812,1280551,1281291,1282031,1282772,1283513,1284255,1284997,1285739,1286482,1287225,1287969,1288713,1289458,1290203,1290948,1291694,1292441,1293187,1293935,1294682,1295430,1296179,1296928,1297677,1298427,1299177,1299928,1300679,1301430,1302182,1302935,1303688,1304441,1305194,1305949,1306703,1307458,1308214,1308969,1309726,1310483,1311240,1311997,1312755,1313514,1314273,1315032,1315792,1316552,1317313,1318074,1318836,1319598,1320360,1321123,1321886,1322650,1323414,1324179,1324944,1325710,1326476,1327242,1328009,1328776,1329544,1330312,1331081,1331850,1332619,1333389,1334160,1334931,1335702,1336474,1337246,1338019,1338792,1339565,1340339,1341114,1341888,1342664,1343440,1344216,1344992,1345770,1346547,1347325,1348104,1348883,1349662,1350442,1351222,1352003,1352784,1353566,1354348,1355130,1355913,1356697,1357480,1358265,1359050,1359835,1360621,1361407,1362193,1362980,1363768,1364556,1365344,1366133,1366922,1367712,1368503,1369293,1370084,1370876,1371668,1372461,1373254,1374047,1374841,1375635,1376430,1377225,1378021,1378817,1379614,1380411,1381209,1382007,1382805,1383604,1384404,1385204,1386004,1386805,1387606,1388408,1389210,1390013,1390816,1391619,1392424,1393228,1394033,1394839,1395644,1396451,1397258,1398065,1398873,1399681,1400490,1401299,1402109,1402919,1403729,1404540,1405352,1406164,1406976,1407789,1408603,1409417,1410231,1411046,1411861,1412677,1413493,1414310,1415127,1415945,1416763,1417581,1418400,1419220,1420040,1420860,1421681,1422503,1423325,1424147,1424970,1425793,1426617,1427441,1428266,1429091,1429917,1430743,1431570,1432397,1433225,1434053,1434881,1435710,1436540,1437370,1438200,1439031,1439863,1440695,1441527,1442360,1443194,1444027,1444862,1445697,1446532,1447368,1448204,1449041,1449878,1450716,1451554,1452393,1453232,1454071,1454912,1455752,1456593,1457435,1458277,1459120,1459963,1460806,1461650,1462495,1463340,1464185,1465031,1465878,1466725,1467572,1468420,1469269,1470117,1470967,1471817,1472667,1473518,1474369,1475221,1476074,1476927,1477780,1478634,1479488,1480343,1481198,1482054,1482910,1483767,1484625,1485482,1486341,1487199,1488059,1488918,1489779,1490640,1491501,1492363,1493225,1494088,1494951,1495815,1496679,1497544,1498409,1499275,1500141,1501008,1501875,1502743,1503611,1504480,1505349,1506219,1507089,1507960,1508831,1509703,1510575,1511448,1512321,1513195,1514070,1514944,1515820,1516695,1517572,1518449,1519326,1520204,1521082,1521961,1522840,1523720,1524601,1525482,1526363,1527245,1528127,1529010,1529894,1530778,1531662,1532547,1533433,1534319,1535205,1536092,1536980,1537868,1538756,1539645,1540535,1541425,1542316,1543207,1544098,1544991,1545883,1546777,1547670,1548564,1549459,1550354,1551250,1552147,1553043,1553941,1554839,1555737,1556636,1557535,1558435,1559336,1560237,1561138,1562040,1562943,1563846,1564749,1565653,1566558,1567463,1568369,1569275,1570182,1571089,1571997,1572905,1573814,1574723,1575633,1576543,1577454,1578366,1579278,1580190,1581103,1582017,1582931,1583845,1584760,1585676,1586592,1587509,1588426,1589344,1590262,1591181,1592101,1593020,1593941,1594862,1595783,1596705,1597628,1598551,1599475,1600399,1601323,1602249,1603174,1604101,1605028,1605955,1606883,1607811,1608740,1609670,1610600,1611530,1612462,1613393,1614325,1615258,1616191,1617125,1618060,1618995,1619930,1620866,1621802,1622740,1623677,1624615,1625554,1626493,1627433,1628373,1629314,1630256,1631197,1632140,1633083,1634027,1634971,1635915,1636861,1637806,1638753,1639699,1640647,1641595,1642543,1643492,1644442,1645392,1646343,1647294,1648246,1649198,1650151,1651104,1652058,1653013,1653968,1654924,1655880,1656837,1657794,1658752,1659710,1660669,1661629,1662589,1663549,1664511,1665472,1666435,1667398,1668361,1669325,1670289,1671254,1672220,1673186,1674153,1675120,1676088,1677057,1678026,1678995,1679965,1680936,1681907,1682879,1683851,1684824,1685798,1686772,1687746,1688722,1689697,1690674,1691650,1692628,1693606,1694584,1695563,1696543,1697523,1698504,1699486,1700467,1701450,1702433,1703417,1704401,1705386,1706371,1707357,1708344,1709331,1710318,1711306,1712295,1713285,1714274,1715265,1716256,1717248,1718240,1719233,1720226,1721220,1722214,1723209,1724205,1725201,1726198,1727196,1728194,1729192,1730191,1731191,1732191,1733192,1734193,1735195,1736198,1737201,1738205,1739209,1740214,1741220,1742226,1743232,1744239,1745247,1746256,1747265,1748274,1749284,1750295,1751306,1752318,1753331,1754344,1755357,1756372,1757386,1758402,1759418,1760434,1761452,1762469,1763488,1764507,1765526,1766546,1767567,1768588,1769610,1770632,1771655,1772679,1773703,1774728,1775754,1776780,1777806,1778833,1779861,1780890,1781919,1782948,1783978,1785009,1786040,1787072,1788105,1789138,1790172,1791206,1792241,1793277,1794313,1795350,1796387,1797425,1798463,1799502,1800542,1801583,1802623,1803665,1804707,1805750,1806793,1807837,1808882,1809927,1810973,1812019,1813066,1814114,1815162,1816211,1817260,1818310,1819360,1820412,1821464,1822516,1823569,1824623,1825677,1826732,1827787,1828843,1829900,1830957,1832015,1833074,1834133,1835193,1836253,1837314,1838375,1839438,1840500,1841564,1842628,1843693,1844758,1845824,1846890,1847957,1849025,1850093,1851162,1852232,1853302,1854373,1855444,1856516,1857589,1858662,1859736,1860811,1861886,1862962,1864038,1865115,1866193,1867271,1868350,1869430,1870510,1871590,1872672,1873754,1874836,1875920,1877004,1878088,1879173,1880259,1881345,1882432,1883520,1884608,1885697,1886787,1887877,1888968,1890059,1891151,1892244,1893337,1894431,1895526,1896621,1897717,1898813,1899910,1901008,1902107,1903206,1904305,1905406,1906506,1907608,1908710,1909813,1910917,1912021,1913125,1914231,1915337,1916443,1917551,1918659,1919767,1920876,1921986,1923097,1924208,1925320,1926432,1927545,1928659,1929773,1930888,1932004,1933120,1934237,1935355,1936473,1937592,1938711,1939832,1940952,1942074,1943196,1944319,1945442,1946566,1947691,1948816,1949942,1951069,1952196,1953324,1954453,1955582,1956712,1957843,1958974,1960106,1961238,1962371,1963505,1964640,1965775,1966911,1968047,1969184,1970322,1971460,1972600,1973739,1974880,1976021,1977162,1978305,1979448,1980592,1981736,1982881,1984027,1985173,1986320,1987468,1988616,1989765,1990915,1992065,1993216,1994368,1995520,1996673,1997827,1998981,2000136,2001292,2002448,2003605,2004763,2005921,2007080,2008240,2009400,2010561,2011723,2012885,2014048,2015212,2016376,2017541,2018707,2019873,2021040,2022208,2023376,2024546,2025715,2026886,2028057,2029229,2030401,2031574,2032748,2033923,2035098,2036274,2037450,2038627,2039805,2040984,2042163,2043343,2044524,2045705,2046887,2048070,2049253,2050437,2051622,2052807,2053993,2055180,2056367,2057556,2058744,2059934,2061124,2062315,2063507,2064699,2065892,2067086,2068280,2069475,2070671,2071867,2073064,2074262,2075460,2076660,2077859,2079060,2080261,2081463,2082666,2083869,2085073,2086278,2087483,2088690,2089896,2091104,2092312,2093521,2094731,2095941};
static const unsigned int REF_LOG[1024] = {1048576,1049286,1049997,1050708,1051419,1052131,1052843,1053556,1054270,1054984,1055698,1056413,1057128,1057844,1058560,1059277,1059994,1060712,1061430,1062149,1062868,1063588,1064308,1065029,1065750,1066472,1067194,1067916,1068639,1069363,1070087,1070812,1071537,1072262,1072988,1073715,1074442,1075170,1075898,1076626,1077355,1078085,1078815,1079545,1080276,1081008,1081740,1082472,1083205,1083939,1084673,1085407,1086142,1086877,1087613,1088350,1089087,1089824,1090562,1091301,1092040,1092779,1093519,1094259,1095000,1095742,1096484,1097226,1097969,1098713,1099457,1100201,1100946,1101692,1102438,1103184,1103931,1104679,1105427,1106175,1106924,1107674,1108424,1109174,1109925,1110677,1111429,1112182,1112935,1113688,1114442,1115197,1115952,1116708,1117464,1118221,1118978,1119736,1120494,1121252,1122012,1122771,1123532,1124292,1125054,1125816,1126578,1127341,1128104,1128868,1129632,1130397,1131163,1131929,1132695,1133462,1134230,1134998,1135766,1136535,1137305,1138075,1138846,1139617,1140388,1141161,1141933,1142706,1143480,1144255,1145029,1145805,1146581,1147357,1148134,1148911,1149689,1150468,1151247,1152026,1152806,1153587,1154368,1155150,1155932,1156715,1157498,1158282,1159066,1159851,1160636,1161422,1162209,1162995,1163783,1164571,1165360,1166149,1166938,1167728,1168519,1169310,1170102,1170895,1171687,1172481,1173275,1174069,1174864,1175660,1176456,1177252,1178050,1178847,1179645,1180444,1181244,1182043,1182844,1183645,1184446,1185248,1186051,1186854,1187658,1188462,1189267,1190072,1190878,1191684,1192491,1193298,1194106,1194915,1195724,1196534,1197344,1198155,1198966,1199778,1200590,1201403,1202217,1203031,1203845,1204661,1205476,1206293,1207109,1207927,1208745,1209563,1210382,1211202,1212022,1212843,1213664,1214486,1215308,1216131,1216954,1217778,1218603,1219428,1220254,1221080,1221907,1222734,1223562,1224391,1225220,1226050,1226880,1227711,1228542,1229374,1230206,1231039,1231873,1232707,1233542,1234377,1235213,1236049,1236886,1237724,1238562,1239400,1240240,1241079,1241920,1242761,1243602,1244444,1245287,1246130,1246974,1247818,1248663,1249509,1250355,1251202,1252049,1252897,1253745,1254594,1255443,1256294,1257144,1257995,1258847,1259700,1260553,1261406,1262260,1263115,1263970,1264826,1265683,1266540,1267397,1268256,1269114,1269974,1270834,1271694,1272555,1273417,1274279,1275142,1276006,1276870,1277734,1278599,1279465,1280331,1281198,1282066,1282934,1283803,1284672,1285542,1286412,1287284,1288155,1289027,1289900,1290774,1291648,1292522,1293398,1294273,1295150,1296027,1296904,1297783,1298661,1299541,1300421,1301301,1302182,1303064,1303946,1304829,1305713,1306597,1307482,1308367,1309253,1310140,1311027,1311914,1312803,1313692,1314581,1315471,1316362,1317253,1318145,1319038,1319931,1320825,1321719,1322614,1323510,1324406,1325303,1326200,1327098,1327997,1328896,1329796,1330696,1331597,1332499,1333401,1334304,1335208,1336112,1337017,1337922,1338828,1339734,1340642,1341549,1342458,1343367,1344276,1345187,1346098,1347009,1347921,1348834,1349747,1350661,1351576,1352491,1353407,1354323,1355240,1356158,1357076,1357995,1358915,1359835,1360756,1361677,1362599,1363522,1364445,1365369,1366293,1367219,1368144,1369071,1369998,1370926,1371854,1372783,1373712,1374642,1375573,1376505,1377437,1378369,1379303,1380237,1381171,1382107,1383043,1383979,1384916,1385854,1386792,1387731,1388671,1389611,1390552,1391494,1392436,1393379,1394322,1395267,1396211,1397157,1398103,1399050,1399997,1400945,1401893,1402843,1403793,1404743,1405694,1406646,1407599,1408552,1409506,1410460,1411415,1412371,1413327,1414284,1415242,1416200,1417159,1418119,1419079,1420040,1421001,1421964,1422926,1423890,1424854,1425819,1426784,1427751,1428717,1429685,1430653,1431622,1432591,1433561,1434532,1435503,1436475,1437448,1438421,1439395,1440370,1441345,1442321,1443298,1444275,1445253,1446232,1447211,1448191,1449171,1450153,1451135,1452117,1453101,1454085,1455069,1456054,1457040,1458027,1459014,1460002,1460991,1461980,1462970,1463961,1464952,1465944,1466937,1467930,1468924,1469918,1470914,1471910,1472906,1473904,1474902,1475901,1476900,1477900,1478901,1479902,1480904,1481907,1482910,1483915,1484919,1485925,1486931,1487938,1488945,1489954,1490962,1491972,1492982,1493993,1495005,1496017,1497030,1498044,1499058,1500073,1501089,1502105,1503123,1504140,1505159,1506178,1507198,1508219,1509240,1510262,1511284,1512308,1513332,1514356,1515382,1516408,1517435,1518462,1519491,1520519,1521549,1522579,1523610,1524642,1525674,1526707,1527741,1528776,1529811,1530847,1531883,1532921,1533959,1534997,1536037,1537077,1538118,1539159,1540201,1541244,1542288,1543332,1544377,1545423,1546469,1547517,1548564,1549613,1550662,1551712,1552763,1553814,1554867,1555919,1556973,1558027,1559082,1560138,1561194,1562252,1563309,1564368,1565427,1566487,1567548,1568609,1569672,1570734,1571798,1572862,1573927,1574993,1576060,1577127,1578195,1579263,1580333,1581403,1582474,1583545,1584617,1585690,1586764,1587839,1588914,1589990,1591066,1592144,1593222,1594301,1595380,1596460,1597541,1598623,1599706,1600789,1601873,1602957,1604043,1605129,1606216,1607303,1608392,1609481,1610571,1611661,1612753,1613845,1614937,1616031,1617125,1618220,1619316,1620412,1621510,1622608,1623706,1624806,1625906,1627007,1628109,1629211,1630314,1631418,1632523,1633628,1634735,1635842,1636949,1638058,1639167,1640277,1641387,1642499,1643611,1644724,1645838,1646952,1648067,1649183,1650300,1651417,1652536,1653655,1654774,1655895,1657016,1658138,1659261,1660384,1661509,1662634,1663760,1664886,1666014,1667142,1668271,1669400,1670531,1671662,1672794,1673926,1675060,1676194,1677329,1678465,1679601,1680739,1681877,1683016,1684155,1685296,1686437,1687579,1688722,1689865,1691009,1692154,1693300,1694447,1695594,1696742,1697891,1699041,1700191,1701343,1702495,1703647,1704801,1705955,1707110,1708266,1709423,1710581,1711739,1712898,1714058,1715218,1716380,1717542,1718705,1719869,1721034,1722199,1723365,1724532,1725700,1726868,1728038,1729208,1730379,1731550,1732723,1733896,1735070,1736245,1737421,1738597,1739774,1740952,1742131,1743311,1744491,1745673,1746855,1748037,1749221,1750406,1751591,1752777,1753964,1755151,1756340,1757529,1758719,1759910,1761102,1762294,1763488,1764682,1765877,1767072,1768269,1769466,1770664,1771863,1773063,1774264,1775465,1776667,1777870,1779074,1780279,1781484,1782691,1783898,1785106,1786315,1787524,1788734,1789946,1791158,1792371,1793584,1794799,1796014,1797230,1798447,1799665,1800884,1802103,1803323,1804544,1805766,1806989,1808213,1809437,1810662,1811888,1813115,1814343,1815571,1816801,1818031,1819262,1820494,1821727,1822960,1824194,1825430,1826666,1827903,1829140,1830379,1831618,1832859,1834100,1835342,1836584,1837828,1839072,1840318,1841564,1842811,1844059,1845307,1846557,1847807,1849058,1850310,1851563,1852817,1854072,1855327,1856583,1857841,1859099,1860357,1861617,1862878,1864139,1865401,1866665,1867929,1869193,1870459,1871726,1872993,1874261,1875530,1876800,1878071,1879343,1880615,1881889,1883163,1884438,1885714,1886991,1888269,1889548,1890827,1892107,1893389,1894671,1895954,1897237,1898522,1899808,1901094,1902381,1903669,1904958,1906248,1907539,1908831,1910123,1911417,1912711,1914006,1915302,1916599,1917897,1919196,1920495,1921796,1923097,1924399,1925702,1927006,1928311,1929617,1930923,1932231,1933539,1934848,1936158,1937470,1938781,1940094,1941408,1942723,1944038,1945354,1946672,1947990,1949309,1950629,1951950,1953271,1954594,1955917,1957242,1958567,1959893,1961220,1962548,1963877,1965207,1966538,1967870,1969202,1970535,1971870,1973205,1974541,1975878,1977216,1978555,1979895,1981235,1982577,1983919,1985263,1986607,1987952,1989298,1990645,1991993,1993342,1994692,1996042,1997394,1998746,2000100,2001454,2002809,2004166,2005523,2006881,2008240,2009599,2010960,2012322,2013685,2015048,2016413,2017778,2019144,2020511,2021880,2023249,2024619,2025990,2027361,2028734,2030108,2031483,2032858,2034235,2035612,2036990,2038370,2039750,2041131,2042513,2043896,2045280,2046665,2048051,2049438,2050826,2052214,2053604,2054995,2056386,2057778,2059172,2060566,2061961,2063358,2064755,2066153,2067552,2068952,2070353,2071755,2073158,2074562,2075966,2077372,2078779,2080186,2081595,2083004,2084415,2085826,2087239,2088652,2090066,2091481,2092898,2094315,2095733};
static const int REF_VOL[101] = {0,94,106,118,133,149,167,188,211,236,265,298,334,375,420,472,529,594,666,748,839,941,1056,1185,1329,1492,1674,1878,2107,2364,2653,2976,3339,3747,4204,4717,5293,5938,6663,7476,8388,9412,10560,11849,13295,14917,16737,18779,21071,23642,26526,29763,33395,37469,42041,47171,52927,59385,66631,74761,83884,94119,105603,118489,132946,149168,167370,187792,210706,236416,265263,297630,333946,374694,420413,471712,529269,593850,666310,747613,838835,941189,1056031,1184886,1329464,1491683,1673696,1877918,2107059,2364159,2652630,2976300,3339463,3746939,4204135,4717117,5292692,5938498,6663105,7476127,8388352};
