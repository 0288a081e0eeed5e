const FACTORS_OF_P_MINUS_1: [&[&str]; 6] = [
    &["2", "3", "5", "17", "257", "65537"],
    &["2", "3", "5"],
    &["2", "3", "11", "19", "10177", "125527", "859267", "906349", "2508409", "2529403", "52437899", "254760293"],
    &["2", "3", "13", "29", "983", "11003", "237073", "405928799", "1670836401704629", "13818364434197438864469338081"],
    &["2", "3", "463", "539204044132271846773", "8999194758858563409123804352480028797519453"],
    &["2", "3", "1709", "24859", "1690502597179744445941507", "10427374428728808478656897599072717"],
];
