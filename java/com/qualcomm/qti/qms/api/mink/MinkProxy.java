package com.qualcomm.qti.qms.api.mink;

public class MinkProxy {
    protected IMinkObject minkObject;
    public MinkProxy(IMinkObject o) { minkObject = o; }
    public void retain() { minkObject.retain(); }
    public void release() { minkObject.release(); }
    public boolean isNull() { return minkObject == null || minkObject.isNull(); }
}
