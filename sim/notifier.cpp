// QWinEventNotifier for the simulator (the class exists only in the Windows QtCore).
#include <QtCore/QtGlobal>
#include <QtCore/QObject>
#include <QtCore/QEvent>
#include <QtCore/QMap>
#include <QtCore/QWinEventNotifier>
#include "core.h"

QT_BEGIN_NAMESPACE
namespace { struct St { Qt::HANDLE h; bool en; }; QMap<const QObject *, St> st; }
static void push(QWinEventNotifier *n)
{
    const St &s = st[n];
    sim::H h = (sim::H)(quintptr)s.h;
    sim::notifier_set(static_cast<QObject *>(n), h, s.en);
}
QWinEventNotifier::QWinEventNotifier(QObject *parent) : QObject(parent) { st[this] = St{0, false}; }
QWinEventNotifier::QWinEventNotifier(HANDLE h, QObject *parent) : QObject(parent) { st[this] = St{h, true}; push(this); }
QWinEventNotifier::~QWinEventNotifier() { st.remove(this); sim::notifier_gone(static_cast<QObject *>(this)); }
void QWinEventNotifier::setHandle(HANDLE h) { setEnabled(false); st[this].h = h; push(this); }
QWinEventNotifier::HANDLE QWinEventNotifier::handle() const { return st[this].h; }
bool QWinEventNotifier::isEnabled() const { return st[this].en; }
void QWinEventNotifier::setEnabled(bool e) { st[this].en = e; push(this); }
bool QWinEventNotifier::event(QEvent *e)
{
    QObject::event(e);
    if (e->type() == QEvent::WinEventAct) {
        if (st[this].en) emit activated(st[this].h, QPrivateSignal());
        return true;
    }
    return false;
}
QT_END_NAMESPACE
#include "moc_notifier.inc"
