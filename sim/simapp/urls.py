from django.urls import path

from sim.adminsite import site

urlpatterns = [path("admin/", site().urls)]
