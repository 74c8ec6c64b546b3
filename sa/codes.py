"""Error codes a user sees, and what they stand for."""
CODES = {
    'E1000': 'UNEXPECTED_TOKEN',
    'E1001': 'INVALID_ESCAPE_SEQUENCE',
    'E1002': 'UNTERMINATED_STRING',
    'E1003': 'UNRECOGNIZED_INPUT',
    'E1004': 'RESERVED_KEYWORD',
    'E1005': 'FUNCTION_HAS_TOO_MANY_ARGUMENTS',
    'E1006': 'OPERATOR_HAS_INCORRECT_ARGUMENT_COUNT',
    'E1007': 'INVALID_INTEGER_VALUE',
    'E1008': 'INVALID_FLOAT_VALUE',
    'E1009': 'UNTERMINATED_BACKSLASH_ARG',
    'E2000': 'INTERNAL_COMPILER_ERROR',
    'E2100': 'TOO_MANY_UPVALUES',
    'E2101': 'TOO_MANY_CONSTANTS',
    'E2102': 'TOO_MANY_VARIABLES',
    'E2103': 'TOO_MANY_OPERANDS',
    'E2200': 'NEW_METHOD_CANNOT_HAVE_RETURN_TYPE',
    'E2201': 'NEW_METHOD_MUST_HAVE_RECEIVER',
    'E2202': 'OPERATOR_MUST_HAVE_RECEIVER',
    'E2203': 'NEW_MUST_CALL_SUPER_FROM_SUBCLASS',
    'E2204': 'NEW_RETURN_CANNOT_HAVE_EXPRESSION',
    'E2205': 'INVALID_SUPER_CALL',
    'E2206': 'METHOD_RECEIVER_CANNOT_HAVE_TYPE',
    'E2207': 'FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS',
    'E2300': 'CLASS_ALREADY_DECLARED',
    'E2301': 'FUNCTION_ALREADY_DECLARED',
    'E2400': 'INVALID_ASSIGNMENT_TARGET',
    'E2401': 'VARIABLE_NOT_DECLARED',
    'E2402': 'VARIABLE_NOT_INITIALIZED',
    'E2403': 'CANNOT_REASSIGN_IMMUTABLE_VARIABLE',
    'E2500': 'INVALID_RETURN_USAGE',
    'E2501': 'INVALID_BREAK_USAGE',
    'E2502': 'INVALID_CONTINUE_USAGE',
    'E2503': 'INVALID_ERROR_PROPAGATE_USAGE',
    'E2504': 'INVALID_EXPORT_USAGE',
    'E2505': 'INVALID_IMPORT_USAGE',
    'E3000': 'INVALID_BOOL_CONVERSION',
    'E3001': 'INVALID_INT_CONVERSION',
    'E3002': 'INVALID_FLOAT_CONVERSION',
    'E3003': 'INVALID_ARRAY_CONVERSION',
    'E3004': 'INVALID_STRING_CONVERSION',
    'E3005': 'INVALID_SYMBOL_CONVERSION',
    'E3006': 'INVALID_OBJECT_CONVERSION',
    'E3007': 'INVALID_CLASS_CONVERSION',
    'E3100': 'TYPE_ASSERTION_FAILURE',
    'E3101': 'TYPE_ASSERTION_NULLABILITY_FAILURE',
    'E3102': 'TYPE_ASSERTION_BOOL_FAILURE',
    'E3103': 'TYPE_ASSERTION_NUMBER_FAILURE',
    'E3104': 'TYPE_ASSERTION_FUNCTION_FAILURE',
    'E3105': 'TYPE_ASSERTION_SUPER_FAILURE',
    'E3200': 'DIVIDE_BY_ZERO',
    'E3300': 'GLOBAL_VARIABLE_ALREADY_DEFINED',
    'E3301': 'GLOBAL_VARIABLE_UNDEFINED',
    'E3302': 'GLOBAL_OPERATOR_UNDEFINED',
    'E3400': 'NEW_FUNCTION_CANNOT_BE_ACCESS_DIRECTLY',
    'E3401': 'CLASS_MUST_HAVE_NEW_IF_SUPER_HAS_NEW',
    'E3402': 'CLASS_CANNOT_INHERIT_VALUE_TYPE',
    'E4000': 'PANIC',
    'E4001': 'IO_ERROR',
    'E4002': 'INVALID_SCRIPT_LOCATION',
    'E4003': 'MODULE_ALREADY_EXISTS',
    'E4004': 'GLOBAL_ALREADY_EXISTS',
}
