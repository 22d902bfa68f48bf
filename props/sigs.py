"""The documented argument types of the library functions (from the library reference) and the failure values"""

# A array, O object, S string, N number, P number > 0, U number >= 0, I integer, G integer >= 0, D datetime, R regex, F function, * anything; lower case: may be left out; '.' rest
SIGS = {
    'arrayCopy': 'A', 'arrayDelete': 'AG', 'arrayExtend': 'AA', 'arrayGet': 'AG', 'arrayIndexOf': 'A*g', 'arrayJoin': 'AS', 'arrayLastIndexOf': 'A*g', 'arrayLength': 'A', 'arrayNewSize': 'g*',
    'arrayPop': 'A', 'arrayPush': 'A.', 'arraySet': 'AG*', 'arrayShift': 'A', 'arraySlice': 'Agg', 'arraySort': 'Af',
    'dataAggregate': 'AO', 'dataCalculatedField': 'ASSo', 'dataFilter': 'ASo', 'dataJoin': 'AASs*o', 'dataSort': 'AA', 'dataTop': 'AGa', 'dataValidate': 'A*',
    'datetimeDay': 'D', 'datetimeHour': 'D', 'datetimeISOFormat': 'D*', 'datetimeISOParse': 'S', 'datetimeMillisecond': 'D', 'datetimeMinute': 'D', 'datetimeMonth': 'D',
    'datetimeNew': 'IIIiiii', 'datetimeNow': '', 'datetimeSecond': 'D', 'datetimeToday': '', 'datetimeYear': 'D',
    'jsonParse': 'S', 'jsonStringify': '*g',
    'mathAbs': 'N', 'mathAcos': 'N', 'mathAsin': 'N', 'mathAtan': 'N', 'mathAtan2': 'NN', 'mathCeil': 'N', 'mathCos': 'N', 'mathFloor': 'N', 'mathLn': 'P', 'mathLog': 'Pp', 'mathPi': '',
    'mathRandom': '', 'mathRound': 'Ng', 'mathSign': 'N', 'mathSin': 'N', 'mathSqrt': 'U', 'mathTan': 'N',
    'numberParseFloat': 'S', 'numberParseInt': 'Sg', 'numberToFixed': 'Ng*',
    'objectAssign': 'OO', 'objectCopy': 'O', 'objectDelete': 'OS', 'objectGet': 'OS*', 'objectHas': 'OS', 'objectKeys': 'O', 'objectSet': 'OS*',
    'regexEscape': 'S', 'regexMatch': 'RS', 'regexMatchAll': 'RS', 'regexNew': 'Ss', 'regexReplace': 'RSS', 'regexSplit': 'RS',
    'stringCharCodeAt': 'SG', 'stringEndsWith': 'SS', 'stringIndexOf': 'SSg', 'stringLastIndexOf': 'SSg', 'stringLength': 'S', 'stringLower': 'S', 'stringNew': '*', 'stringRepeat': 'SG',
    'stringReplace': 'SSS', 'stringSlice': 'SGg', 'stringSplit': 'SS', 'stringStartsWith': 'SS', 'stringTrim': 'S', 'stringUpper': 'S',
    'systemBoolean': '*', 'systemCompare': '**', 'systemGlobalGet': 'S*', 'systemGlobalSet': 'S*', 'systemIs': '**', 'systemPartial': 'F.', 'systemType': '*',
    'urlEncode': 'S', 'urlEncodeComponent': 'S',
}
# null where not listed
FAILURE = {'arrayIndexOf': -1, 'arrayLastIndexOf': -1, 'arrayLength': 0, 'objectHas': False, 'stringIndexOf': -1, 'stringLastIndexOf': -1, 'stringLength': 0}
TYPES = {'A': 'array', 'O': 'object', 'S': 'string', 'N': 'number', 'P': 'number', 'U': 'number', 'I': 'number', 'G': 'number', 'D': 'datetime', 'R': 'regex', 'F': 'function'}
