package com.qualcomm.qti.qms.api.mink;

/** stand-in for the Mink runtime API the generated Java refers to */
public interface IMinkObject {
    int ERROR = 1, ERROR_INVALID = 2, ERROR_SIZE_IN = 3, ERROR_SIZE_OUT = 4, ERROR_USERBASE = 10, ERROR_DEFUNCT = -90, ERROR_ABORT = -91,
        ERROR_BADOBJ = -92, ERROR_NOSLOTS = -93, ERROR_MAXARGS = -94, ERROR_MAXDATA = -95, ERROR_UNAVAIL = -96, ERROR_KMEM = -97, ERROR_REMOTE = -98, ERROR_BUSY = -99;

    class InvokeException extends Exception {
        private final int code;
        public InvokeException(int code) { super("error " + code); this.code = code; }
        public int getErrorCode() { return code; }
    }

    void retain();
    void release();
    boolean isNull();
    void invoke(int methodID, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException;
}
